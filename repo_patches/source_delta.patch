From 0228905e5dae7507d01ed1619dcdc3e728a5db79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 01/42] fix: wrap half-grid-shifted particle locations equal to
 the grid number

A particle exactly half a cell below the upper box edge has shifted grid
location equal to the number of grid cells, which was not wrapped to zero so
its interlaced (shadow) assignment went to wrong cells or was dropped.
---
 src/triumvirate/src/field.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 37d55a5..3be2209 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -689,7 +689,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -800,7 +800,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -929,7 +929,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -1067,7 +1067,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
-- 
2.43.0


From 263ac10f393fd648cf027783cda258518072c8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 02/42] fix: correct wrap-around index of interlaced TSC
 assignment

In the second half of the last-but-one and last cells along an axis the third
covered index was computed from the wrong cell, so mass was dropped or put in
the wrong cell of the shadow field.
---
 src/triumvirate/src/field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 3be2209..3bc7fc0 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -943,9 +943,9 @@ OMP_ATOMIC
             ? 0 : idx_grid + 1;
         } else {
           ijk[0][iaxis] = idx_grid;
-          ijk[1][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
+          ijk[1][iaxis] = (ijk[0][iaxis] == this->params.ngrid[iaxis] - 1)
             ? 0 : ijk[0][iaxis] + 1;
-          ijk[2][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
+          ijk[2][iaxis] = (ijk[1][iaxis] == this->params.ngrid[iaxis] - 1)
             ? 0 : ijk[1][iaxis] + 1;
         }
 
-- 
2.43.0


From 7b0baca1691e7a150827bb3e0343b0f23249c5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 03/42] fix: use the signed frequency and separation index on
 odd-numbered meshes

---
 src/triumvirate/src/field.cpp | 36 +++++++++++++++++------------------
 src/triumvirate/src/maths.cpp | 12 ++++++------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 3bc7fc0..ef23fd8 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -538,26 +538,26 @@ long long MeshField::ret_grid_index(int i, int j, int k) {
 }
 
 void MeshField::shift_grid_indices_fourier(int& i, int& j, int& k) {
-  i = (i < this->params.ngrid[0]/2) ? i : i - this->params.ngrid[0];
-  j = (j < this->params.ngrid[1]/2) ? j : j - this->params.ngrid[1];
-  k = (k < this->params.ngrid[2]/2) ? k : k - this->params.ngrid[2];
+  i = (2*i < this->params.ngrid[0]) ? i : i - this->params.ngrid[0];
+  j = (2*j < this->params.ngrid[1]) ? j : j - this->params.ngrid[1];
+  k = (2*k < this->params.ngrid[2]) ? k : k - this->params.ngrid[2];
 }
 
 void MeshField::get_grid_pos_vector(int i, int j, int k, double rvec[3]) {
-  rvec[0] = (i < this->params.ngrid[0]/2) ?
+  rvec[0] = (2*i < this->params.ngrid[0]) ?
     i * this->dr[0] : (i - this->params.ngrid[0]) * this->dr[0];
-  rvec[1] = (j < this->params.ngrid[1]/2) ?
+  rvec[1] = (2*j < this->params.ngrid[1]) ?
     j * this->dr[1] : (j - this->params.ngrid[1]) * this->dr[1];
-  rvec[2] = (k < this->params.ngrid[2]/2) ?
+  rvec[2] = (2*k < this->params.ngrid[2]) ?
     k * this->dr[2] : (k - this->params.ngrid[2]) * this->dr[2];
 }
 
 void MeshField::get_grid_wavevector(int i, int j, int k, double kvec[3]) {
-  kvec[0] = (i < this->params.ngrid[0]/2) ?
+  kvec[0] = (2*i < this->params.ngrid[0]) ?
     i * this->dk[0] : (i - this->params.ngrid[0]) * this->dk[0];
-  kvec[1] = (j < this->params.ngrid[1]/2) ?
+  kvec[1] = (2*j < this->params.ngrid[1]) ?
     j * this->dk[1] : (j - this->params.ngrid[1]) * this->dk[1];
-  kvec[2] = (k < this->params.ngrid[2]/2) ?
+  kvec[2] = (2*k < this->params.ngrid[2]) ?
     k * this->dk[2] : (k - this->params.ngrid[2]) * this->dk[2];
 }
 
@@ -1622,13 +1622,13 @@ void MeshField::fourier_transform() {
 
           // Calculate the index vector representing the grid cell.
           double m[3];
-          m[0] = (i < this->params.ngrid[0]/2)
+          m[0] = (2*i < this->params.ngrid[0])
             ? double(i) / this->params.ngrid[0]
             : double(i) / this->params.ngrid[0] - 1;
-          m[1] = (j < this->params.ngrid[1]/2)
+          m[1] = (2*j < this->params.ngrid[1])
             ? double(j) / this->params.ngrid[1]
             : double(j) / this->params.ngrid[1] - 1;
-          m[2] = (k < this->params.ngrid[2]/2)
+          m[2] = (2*k < this->params.ngrid[2])
             ? double(k) / this->params.ngrid[2]
             : double(k) / this->params.ngrid[2] - 1;
 
@@ -2309,9 +2309,9 @@ long long FieldStats::ret_grid_index(int i, int j, int k) {
 }
 
 void FieldStats::shift_grid_indices_fourier(int& i, int& j, int& k) {
-  i = (i < this->params.ngrid[0]/2) ? i : i - this->params.ngrid[0];
-  j = (j < this->params.ngrid[1]/2) ? j : j - this->params.ngrid[1];
-  k = (k < this->params.ngrid[2]/2) ? k : k - this->params.ngrid[2];
+  i = (2*i < this->params.ngrid[0]) ? i : i - this->params.ngrid[0];
+  j = (2*j < this->params.ngrid[1]) ? j : j - this->params.ngrid[1];
+  k = (2*k < this->params.ngrid[2]) ? k : k - this->params.ngrid[2];
 }
 
 trv::BinnedVectors FieldStats::record_binned_vectors(
@@ -2414,11 +2414,11 @@ trv::BinnedVectors FieldStats::record_binned_vectors(
   for (int i: i_range) {
     for (int j: j_range) {
       for (int k: k_range) {
-        double vx = (i < this->params.ngrid[0]/2) ?
+        double vx = (2*i < this->params.ngrid[0]) ?
           i * cellsizes[0] : (i - this->params.ngrid[0]) * cellsizes[0];
-        double vy = (j < this->params.ngrid[1]/2) ?
+        double vy = (2*j < this->params.ngrid[1]) ?
           j * cellsizes[1] : (j - this->params.ngrid[1]) * cellsizes[1];
-        double vz = (k < this->params.ngrid[2]/2) ?
+        double vz = (2*k < this->params.ngrid[2]) ?
           k * cellsizes[2] : (k - this->params.ngrid[2]) * cellsizes[2];
 
         double scale = trvm::get_vec3d_magnitude({vx, vy, vz});
diff --git a/src/triumvirate/src/maths.cpp b/src/triumvirate/src/maths.cpp
index 4358e40..8ead2c9 100644
--- a/src/triumvirate/src/maths.cpp
+++ b/src/triumvirate/src/maths.cpp
@@ -249,9 +249,9 @@ store_reduced_spherical_harmonic_in_fourier_space(
         // that negative wavenumbers/frequencies come after zero and
         // positive wavenumbers/frequencies.
         double kvec[3];
-        kvec[0] = (i < ngrid[0]/2) ? i * dk[0] : (i - ngrid[0]) * dk[0];
-        kvec[1] = (j < ngrid[1]/2) ? j * dk[1] : (j - ngrid[1]) * dk[1];
-        kvec[2] = (k < ngrid[2]/2) ? k * dk[2] : (k - ngrid[2]) * dk[2];
+        kvec[0] = (2*i < ngrid[0]) ? i * dk[0] : (i - ngrid[0]) * dk[0];
+        kvec[1] = (2*j < ngrid[1]) ? j * dk[1] : (j - ngrid[1]) * dk[1];
+        kvec[2] = (2*k < ngrid[2]) ? k * dk[2] : (k - ngrid[2]) * dk[2];
 
         ylm_out[idx_grid] = calc_reduced_spherical_harmonic(ell, m, kvec);
       }
@@ -291,9 +291,9 @@ store_reduced_spherical_harmonic_in_config_space(
         // that negative wavenumbers/frequencies come after zero and
         // positive wavenumbers/frequencies.
         double rvec[3];
-        rvec[0] = (i < ngrid[0]/2) ? i * dr[0] : (i - ngrid[0]) * dr[0];
-        rvec[1] = (j < ngrid[1]/2) ? j * dr[1] : (j - ngrid[1]) * dr[1];
-        rvec[2] = (k < ngrid[2]/2) ? k * dr[2] : (k - ngrid[2]) * dr[2];
+        rvec[0] = (2*i < ngrid[0]) ? i * dr[0] : (i - ngrid[0]) * dr[0];
+        rvec[1] = (2*j < ngrid[1]) ? j * dr[1] : (j - ngrid[1]) * dr[1];
+        rvec[2] = (2*k < ngrid[2]) ? k * dr[2] : (k - ngrid[2]) * dr[2];
 
         ylm_out[idx_grid] = calc_reduced_spherical_harmonic(ell, m, rvec);
       }
-- 
2.43.0


From bb40d21a47a118ed35b3457d2a5fe969949d7cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 04/42] fix: apply alpha contrast and mean-density subtraction
 to the interlaced mesh

---
 src/triumvirate/src/field.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index ef23fd8..40ada2f 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -1241,6 +1241,16 @@ void MeshField::compute_unweighted_field_fluctuations_insitu(
     this->field[gid][0] -= nbar;
     // this->field[gid][1] -= 0.; (unused)
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] -= nbar;
+      // this->field_s[gid][1] -= 0.; (unused)
+    }
+  }
 }
 
 void MeshField::compute_ylm_wgtd_field(
@@ -1359,6 +1369,16 @@ void MeshField::compute_ylm_wgtd_field(
     this->field[gid][0] *= alpha;
     this->field[gid][1] *= alpha;
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] *= alpha;
+      this->field_s[gid][1] *= alpha;
+    }
+  }
 }
 
 void MeshField::compute_ylm_wgtd_quad_field(
@@ -1486,6 +1506,16 @@ void MeshField::compute_ylm_wgtd_quad_field(
     this->field[gid][0] *= std::pow(alpha, 2);
     this->field[gid][1] *= std::pow(alpha, 2);
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] *= std::pow(alpha, 2);
+      this->field_s[gid][1] *= std::pow(alpha, 2);
+    }
+  }
 }
 
 
-- 
2.43.0


From 741d3215670cab3d9cd4d94657aaf315265a3754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 05/42] fix: compare the volumes of both fields in the
 two-point compatibility check

---
 src/triumvirate/src/field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 40ada2f..e673309 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -2322,7 +2322,7 @@ bool FieldStats::if_fields_compatible(
   if (
     this->params.nmesh != field_a.params.nmesh
     || this->params.nmesh != field_b.params.nmesh
-    || this->params.volume != field_b.params.volume
+    || this->params.volume != field_a.params.volume
     || this->params.volume != field_b.params.volume
   ) {
     flag_compatible = false;
-- 
2.43.0


From 9e106681ec0ada695c6b66d6137d10b65040d1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 06/42] fix: wrap negative multiples of the box size to zero in
 periodic offsets

---
 src/triumvirate/src/particles.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 0212f53..55ffe61 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -691,6 +691,11 @@ offset_coords_for_periodicity(const double boxsize[3]) {
         this->pdata[pid].pos[iaxis] = std::fmod(
           this->pdata[pid].pos[iaxis], boxsize[iaxis]
         ) + boxsize[iaxis];
+        // Exclude the upper box edge, which is reached by negative multiples
+        // of the box size and by rounding of tiny negative remainders.
+        if (this->pdata[pid].pos[iaxis] >= boxsize[iaxis]) {
+          this->pdata[pid].pos[iaxis] = 0.;
+        }
       }
     }
   }
-- 
2.43.0


From c3c6f92c31bc6f81c85a0ebd3ba109b44f30dd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 07/42] fix: release the memory count of the previous particles
 when re-initialising a catalogue

---
 src/triumvirate/src/particles.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 55ffe61..1e74777 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -55,11 +55,11 @@ void ParticleCatalogue::initialise_particles(const int num) {
     );
   }
 
-  this->ntotal = num;
-
   // Renew particle data.
   this->reset_particles();
 
+  this->ntotal = num;
+
   this->pdata = new ParticleData[this->ntotal];
   trvs::gbytesMem += trvs::size_in_gb<struct ParticleData>(this->ntotal);
   trvs::update_maxmem();
-- 
2.43.0


From 705a50df2927c5305ea07f089a8d1507804c1c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 08/42] fix: reject catalogue files with missing position
 columns or short rows

---
 src/triumvirate/src/particles.cpp | 32 +++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 1e74777..6a04bac 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -158,6 +158,23 @@ int ParticleCatalogue::load_catalogue_file(
     }
   }
 
+  if (!is_hdf5) {
+    for (int iaxis = 0; iaxis < 3; iaxis++) {
+      if (name_indices[iaxis] == -1) {
+        if (trvs::currTask == 0) {
+          trvs::logger.error(
+            "Catalogue column '%s' is missing (source=%s).",
+            names_ordered[iaxis].c_str(), this->source.c_str()
+          );
+        }
+        throw trvs::InvalidDataError(
+          "Catalogue column '%s' is missing (source=%s).",
+          names_ordered[iaxis].c_str(), this->source.c_str()
+        );
+      }
+    }
+  }
+
   // ---------------------------------------------------------------------
   // Data reading
   // ---------------------------------------------------------------------
@@ -461,6 +478,21 @@ int ParticleCatalogue::load_catalogue_file(
         );
         while (ss >> entry) {row.push_back(entry);}
 
+        for (int col_idx : name_indices) {
+          if (col_idx >= static_cast<int>(row.size())) {
+            if (trvs::currTask == 0) {
+              trvs::logger.error(
+                "Catalogue row has fewer entries than columns (source=%s): %s",
+                this->source.c_str(), entry_str.c_str()
+              );
+            }
+            throw trvs::InvalidDataError(
+              "Catalogue row has fewer entries than columns (source=%s): %s",
+              this->source.c_str(), entry_str.c_str()
+            );
+          }
+        }
+
         // Add the current line as a particle.
         this->pdata[idx_entry].pos[0] = row[name_indices[0]];  // x
         this->pdata[idx_entry].pos[1] = row[name_indices[1]];  // y
-- 
2.43.0


From 3cf4953e9d775d3ef604981765719fc39ecd4c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 09/42] fix: match parameter file keys exactly and bound the
 value buffers

---
 src/triumvirate/src/parameters.cpp | 102 ++++++++++++++++-------------
 1 file changed, 58 insertions(+), 44 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 466b186..48ffcba 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -105,8 +105,8 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   // NOTE: Assume file systems allow path character lengths up to 4096,
   // and up to 64 files of this maximum lengths are stored in the
   // char arrays.
-  char catalogue_dir_[1024] = "";
-  char measurement_dir_[1024] = "";
+  char catalogue_dir_[4097] = "";
+  char measurement_dir_[4097] = "";
   char data_catalogue_file_[262144] = "";
   char rand_catalogue_file_[262144] = "";
   char catalogue_columns_[1024] = "";
@@ -116,28 +116,28 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   double boxsize_x, boxsize_y, boxsize_z;
   int ngrid_x, ngrid_y, ngrid_z;
 
-  char alignment_[16] = "";
-  char padscale_[16] = "";
-  char assignment_[16] = "";
-  char interlace_[16] = "";
+  char alignment_[1024] = "";
+  char padscale_[1024] = "";
+  char assignment_[1024] = "";
+  char interlace_[1024] = "";
 
-  char catalogue_type_[16] = "";
-  char statistic_type_[16] = "";
-  char form_[16] = "";
-  char norm_convention_[16] = "";
-  char binning_[16] = "";
+  char catalogue_type_[1024] = "";
+  char statistic_type_[1024] = "";
+  char form_[1024] = "";
+  char norm_convention_[1024] = "";
+  char binning_[1024] = "";
 
-  char fftw_scheme_[16] = "";
+  char fftw_scheme_[1024] = "";
   char use_fftw_wisdom_[1024] = "";
   char save_binned_vectors_[1024] = "";
-  char progbar_[16] = "";
+  char progbar_[1024] = "";
 
   // ---------------------------------------------------------------------
   // Extraction
   // ---------------------------------------------------------------------
 
   std::string line_str;
-  char dummy_str[1024], dummy_equal[1024];
+  char par_key[1024], dummy_str[1024], dummy_equal[1024];
   while (std::getline(fin, line_str)) {
     // Check if the line is a parameter assignment.
     if (line_str.find("#") == 0) {
@@ -146,7 +146,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     if (
       std::sscanf(
         line_str.data(), "%1023s %1023s %1023s",
-        dummy_str, dummy_equal, dummy_str
+        par_key, dummy_equal, dummy_str
       ) != 3
     ) {
       continue;
@@ -155,11 +155,17 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
       continue;
     }  // skip non-assignment lines
 
+    // Define convenience function for matching the parameter key, as
+    // it may also appear as part of other keys or in parameter values.
+    auto is_par = [&par_key](const char* par_name) {
+      return std::strcmp(par_key, par_name) == 0;
+    };
+
     // Define convenience function for scanning string parameters.
-    auto scan_par_str = [line_str, dummy_str, dummy_equal](
-      const char* par_name, const char* fmt, const char* par_value
+    auto scan_par_str = [&line_str, &dummy_str, &dummy_equal, &is_par](
+      const char* par_name, const char* fmt, char* par_value
     ) {
-      if (line_str.find(par_name) != std::string::npos) {
+      if (is_par(par_name)) {
         std::sscanf(
           line_str.data(), fmt, dummy_str, dummy_equal, par_value
         );
@@ -168,54 +174,62 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
 
     // -- I/O ------------------------------------------------------------
 
-    scan_par_str("catalogue_dir", "%s %s %s", catalogue_dir_);
-    scan_par_str("measurement_dir", "%s %s %s", measurement_dir_);
-    scan_par_str("data_catalogue_file", "%s %s %s", data_catalogue_file_);
-    scan_par_str("rand_catalogue_file", "%s %s %s", rand_catalogue_file_);
-    scan_par_str("catalogue_columns", "%s %s %s", catalogue_columns_);
-    scan_par_str("catalogue_dataset", "%s %s %s", catalogue_dataset_);
-    scan_par_str("output_tag", "%s %s %s", output_tag_);
+    scan_par_str("catalogue_dir", "%1023s %1023s %4096s", catalogue_dir_);
+    scan_par_str("measurement_dir", "%1023s %1023s %4096s", measurement_dir_);
+    scan_par_str(
+      "data_catalogue_file", "%1023s %1023s %262143s", data_catalogue_file_
+    );
+    scan_par_str(
+      "rand_catalogue_file", "%1023s %1023s %262143s", rand_catalogue_file_
+    );
+    scan_par_str(
+      "catalogue_columns", "%1023s %1023s %1023s", catalogue_columns_
+    );
+    scan_par_str(
+      "catalogue_dataset", "%1023s %1023s %1023s", catalogue_dataset_
+    );
+    scan_par_str("output_tag", "%1023s %1023s %1023s", output_tag_);
 
     // -- Mesh sampling --------------------------------------------------
 
-    if (line_str.find("boxsize_x") != std::string::npos) {
+    if (is_par("boxsize_x")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &boxsize_x
       );
     }
-    if (line_str.find("boxsize_y") != std::string::npos) {
+    if (is_par("boxsize_y")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &boxsize_y
       );
     }
-    if (line_str.find("boxsize_z") != std::string::npos) {
+    if (is_par("boxsize_z")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &boxsize_z
       );
     }
 
-    if (line_str.find("ngrid_x") != std::string::npos) {
+    if (is_par("ngrid_x")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &ngrid_x
       );
     }
-    if (line_str.find("ngrid_y") != std::string::npos) {
+    if (is_par("ngrid_y")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &ngrid_y
       );
     }
-    if (line_str.find("ngrid_z") != std::string::npos) {
+    if (is_par("ngrid_z")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d", dummy_str, dummy_equal, &ngrid_z
       );
     }
 
-    if (line_str.find("expand") != std::string::npos) {
+    if (is_par("expand")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->expand
@@ -225,7 +239,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     scan_par_str("alignment", "%1023s %1023s %1023s", alignment_);
     scan_par_str("padscale", "%1023s %1023s %1023s", padscale_);
 
-    if (line_str.find("padfactor") != std::string::npos) {
+    if (is_par("padfactor")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->padfactor
@@ -243,65 +257,65 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     scan_par_str("norm_convention", "%1023s %1023s %1023s", norm_convention_);
     scan_par_str("binning", "%1023s %1023s %1023s", binning_);
 
-    if (line_str.find("ell1") != std::string::npos) {
+    if (is_par("ell1")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->ell1
       );
     }
-    if (line_str.find("ell2") != std::string::npos) {
+    if (is_par("ell2")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->ell2
       );
     }
-    if (line_str.find("ELL") != std::string::npos) {
+    if (is_par("ELL")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->ELL
       );
     }
 
-    if (line_str.find("i_wa") != std::string::npos) {
+    if (is_par("i_wa")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->i_wa
       );
     }
-    if (line_str.find("j_wa") != std::string::npos) {
+    if (is_par("j_wa")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->j_wa
       );
     }
 
-    if (line_str.find("bin_min") != std::string::npos) {
+    if (is_par("bin_min")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->bin_min
       );
     }
-    if (line_str.find("bin_max") != std::string::npos) {
+    if (is_par("bin_max")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->bin_max
       );
     }
 
-    if (line_str.find("num_bins") != std::string::npos) {
+    if (is_par("num_bins")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->num_bins
       );
     }
-    if (line_str.find("idx_bin") != std::string::npos) {
+    if (is_par("idx_bin")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->idx_bin
       );
     }
 
-    if (line_str.find("cutoff_nyq") != std::string::npos) {
+    if (is_par("cutoff_nyq")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->cutoff_nyq
@@ -317,7 +331,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     );
     scan_par_str("progbar", "%1023s %1023s %1023s", progbar_);
 
-    if (line_str.find("verbose") != std::string::npos) {
+    if (is_par("verbose")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->verbose
-- 
2.43.0


From 8e7440283595dfb8bb5bc9274dbe6b399fdfcc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 10/42] fix: keep box size and grid numbers unset when absent
 from the parameter file

---
 src/triumvirate/src/parameters.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 48ffcba..6c0c5de 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -113,8 +113,12 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   char catalogue_dataset_[1024] = "";
   char output_tag_[1024] = "";
 
-  double boxsize_x, boxsize_y, boxsize_z;
-  int ngrid_x, ngrid_y, ngrid_z;
+  double boxsize_x = this->boxsize[0];
+  double boxsize_y = this->boxsize[1];
+  double boxsize_z = this->boxsize[2];
+  int ngrid_x = this->ngrid[0];
+  int ngrid_y = this->ngrid[1];
+  int ngrid_z = this->ngrid[2];
 
   char alignment_[1024] = "";
   char padscale_[1024] = "";
-- 
2.43.0


From efd0664155021aaa9d845ad3b67da0b961295a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 11/42] fix: copy the measurement shape with a parameter set

---
 src/triumvirate/src/parameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 6c0c5de..5cf4779 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -69,6 +69,7 @@ ParameterSet::ParameterSet(const ParameterSet& other) {
   this->j_wa = other.j_wa;
   this->form = other.form;
   this->norm_convention = other.norm_convention;
+  this->shape = other.shape;
   this->binning = other.binning;
   this->bin_min = other.bin_min;
   this->bin_max = other.bin_max;
-- 
2.43.0


From cc1e91c7fcc12693bd327c419b0d36bbecbc3bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 12/42] fix: reject unset grid numbers without a Nyquist cutoff

---
 src/triumvirate/src/parameters.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 5cf4779..bf1a4eb 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1106,6 +1106,16 @@ int ParameterSet::validate(bool init) {
       );
     }
     if (this->volume > 0.) {
+      if (this->cutoff_nyq == 0.) {
+        if (trvs::currTask == 0) {
+          trvs::logger.error(
+            "Neither the mesh grid numbers nor the Nyquist cutoff is set."
+          );
+        }
+        throw trvs::InvalidParameterError(
+          "Neither the mesh grid numbers nor the Nyquist cutoff is set."
+        );
+      }
       set_ngrid_from_cutoff(*this);
     }
   }
-- 
2.43.0


From 72b9614a11c718df1d78cff85f50f59da753a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 13/42] fix: print the full mesh grid number to the parameter
 file

---
 src/triumvirate/src/parameters.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index bf1a4eb..8e38b8b 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1323,6 +1323,9 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   auto print_par_int = [ofileptr](const char* fmt, int par_val) {
     std::fprintf(ofileptr, fmt, par_val);
   };
+  auto print_par_longlong = [ofileptr](const char* fmt, long long par_val) {
+    std::fprintf(ofileptr, fmt, par_val);
+  };
   auto print_par_double = [ofileptr](const char* fmt, double par_val) {
     std::fprintf(ofileptr, fmt, par_val);
   };
@@ -1344,7 +1347,7 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   print_par_int("ngrid_z = %d\n", this->ngrid[2]);
 
   print_par_double("volume = %.6e\n", this->volume);
-  print_par_int("nmesh = %lld\n", this->nmesh);
+  print_par_longlong("nmesh = %lld\n", this->nmesh);
 
   print_par_double("expand = %.4f\n", this->expand);
   print_par_str("alignment = %s\n", this->alignment);
-- 
2.43.0


From 4087dc731bf6084a1a287c05434f2e269bb0553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 14/42] fix: do not re-initialise the copied parameters of the
 mixed-mesh normalisation

---
 src/triumvirate/src/twopt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/twopt.cpp b/src/triumvirate/src/twopt.cpp
index f840a86..ac1b571 100644
--- a/src/triumvirate/src/twopt.cpp
+++ b/src/triumvirate/src/twopt.cpp
@@ -253,7 +253,7 @@ double calc_powspec_normalisation_from_meshes(
 
   params_norm.assignment = assignment;
 
-  params_norm.validate(true);
+  params_norm.validate(false);
 
   // Reuse existing overloaded method.
   double norm_factor = calc_powspec_normalisation_from_meshes(
-- 
2.43.0


From fa3051726651c7252d8f7283b8f1ada58a687e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 15/42] fix: keep full-form bispectrum shot noise inside the
 result array

---
 src/triumvirate/src/threept.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/src/threept.cpp b/src/triumvirate/src/threept.cpp
index a08f818..6a38c39 100644
--- a/src/triumvirate/src/threept.cpp
+++ b/src/triumvirate/src/threept.cpp
@@ -924,7 +924,7 @@ trv::BispecMeasurements compute_bispec(
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
                 int idx_dv = idx_row * params.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -2100,7 +2100,7 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
             std::complex<double> S_ik_j_ki_col_ = coupling * (
               stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
             );
-            for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
               int idx_dv = idx_row * params.num_bins + idx_col;
               sn_dv[idx_dv] +=
                 S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -3876,7 +3876,7 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
                 int idx_dv = idx_row * params.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
-- 
2.43.0


From c2275ca642f9c5c084697b762f906fc1cf5f9438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 16/42] fix: accept sorted arrays in either direction in the
 sortedness checks

---
 src/triumvirate/_arrayops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/_arrayops.py b/src/triumvirate/_arrayops.py
index 5eb3eeb..daa0d17 100644
--- a/src/triumvirate/_arrayops.py
+++ b/src/triumvirate/_arrayops.py
@@ -122,7 +122,7 @@ def _check_1d_array(a, check_sorted=False, check_epsign=False,
             )
 
     if check_sorted:
-        if (not np.all(a[:-1] <= a[1:])) or (not np.all(a[:-1] >= a[1:])):
+        if (not np.all(a[:-1] <= a[1:])) and (not np.all(a[:-1] >= a[1:])):
             raise OrderError("Input array is not a sorted sequence.")
     if check_epsign:
         _check_epsign(a)
@@ -211,7 +211,7 @@ def _check_2d_array(a, check_sorted=False, check_epsign=False,
                     not np.all([
                         np.all(a__row[:-1] <= a__row[1:]) for a__row in a_
                     ])
-                ) or (
+                ) and (
                     not np.all([
                         np.all(a__row[:-1] >= a__row[1:]) for a__row in a_
                     ])
-- 
2.43.0


From 8e6aaeb964551cf3da0a83462e8212d789bbc9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 17/42] fix: extend each row by the row count and each column
 by the column count in 2-d extrapolation

---
 src/triumvirate/_arrayops.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/_arrayops.py b/src/triumvirate/_arrayops.py
index daa0d17..083e1d4 100644
--- a/src/triumvirate/_arrayops.py
+++ b/src/triumvirate/_arrayops.py
@@ -673,8 +673,8 @@ def extrap2d_lin(a, n_ext):
         n_ext if isinstance(n_ext, Sequence) else (n_ext, n_ext)
 
     # Extrapolate horizontally then vertically.
-    a_ = _extrap2d_row_lin(a, ncol_ext)
-    a_out = _extrap2d_row_lin(a_.transpose(), nrow_ext).transpose()
+    a_ = _extrap2d_row_lin(a, nrow_ext)
+    a_out = _extrap2d_row_lin(a_.transpose(), ncol_ext).transpose()
 
     return a_out
 
@@ -701,8 +701,8 @@ def extrap2d_loglin(a, n_ext):
         n_ext if isinstance(n_ext, Sequence) else (n_ext, n_ext)
 
     # Extrapolate horizontally then vertically.
-    a_ = _extrap2d_row_loglin(a, ncol_ext)
-    a_out = _extrap2d_row_loglin(a_.transpose(), nrow_ext).transpose()
+    a_ = _extrap2d_row_loglin(a, nrow_ext)
+    a_out = _extrap2d_row_loglin(a_.transpose(), ncol_ext).transpose()
 
     return a_out
 
@@ -729,8 +729,8 @@ def extrap2d_loglin_oscil(a, n_ext):
         n_ext if isinstance(n_ext, Sequence) else (n_ext, n_ext)
 
     # Extrapolate horizontally then vertically.
-    a_ = _extrap2d_row_loglin_oscil(a, ncol_ext)
-    a_out = _extrap2d_row_loglin_oscil(a_.transpose(), nrow_ext).transpose()
+    a_ = _extrap2d_row_loglin_oscil(a, nrow_ext)
+    a_out = _extrap2d_row_loglin_oscil(a_.transpose(), ncol_ext).transpose()
 
     return a_out
 
-- 
2.43.0


From 0094da3f0be6ae1ea46c4c48271c8f09bab6c241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:41 +0000
Subject: [PATCH 18/42] fix: accept a scalar origin and integer columns when
 offsetting coordinates

---
 src/triumvirate/catalogue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index bcddf2c..f8ec095 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -684,8 +684,11 @@ class ParticleCatalogue:
             Coordinates of the new origin.
 
         """
+        if np.isscalar(origin):
+            origin = [origin, origin, origin]
+
         for axis, coord in zip(['x', 'y', 'z'], origin):
-            self._pdata[axis] -= coord
+            self._pdata[axis] = self._pdata[axis] - coord
 
         self._calc_bounds()
 
-- 
2.43.0


From 80426370ca81e979fe702082e84abefc555ebe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:41 +0000
Subject: [PATCH 19/42] fix: accept array padding factors and integer columns
 when padding catalogues

---
 src/triumvirate/catalogue.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index f8ec095..7960f68 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -627,10 +627,12 @@ class ParticleCatalogue:
             catalogue_ref_.bounds[axis][0] for axis in ['x', 'y', 'z']
         ])
 
-        if boxsize_pad:
-            origin -= np.multiply(boxsize_pad, boxsize)
-        if ngrid_pad:
-            origin -= np.multiply(ngrid_pad, np.divide(boxsize, ngrid))
+        if boxsize_pad is not None:
+            origin = origin - np.multiply(boxsize_pad, boxsize)
+        if ngrid_pad is not None:
+            origin = origin - np.multiply(
+                ngrid_pad, np.divide(boxsize, ngrid)
+            )
 
         self.offset_coords(origin)
         if catalogue_ref is not None:
-- 
2.43.0


From 3cfccdc5eeec02d6c7caad71d220e165070b6d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:41 +0000
Subject: [PATCH 20/42] fix: shift a catalogue only once when it is its own
 reference

---
 src/triumvirate/catalogue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 7960f68..43109fc 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -541,7 +541,7 @@ class ParticleCatalogue:
         ])
 
         self.offset_coords(origin)
-        if catalogue_ref is not None:
+        if catalogue_ref_ is not self:
             catalogue_ref.offset_coords(origin)
 
     def pad(self, boxsize, ngrid=None, boxsize_pad=None, ngrid_pad=None,
@@ -635,7 +635,7 @@ class ParticleCatalogue:
             )
 
         self.offset_coords(origin)
-        if catalogue_ref is not None:
+        if catalogue_ref_ is not self:
             catalogue_ref.offset_coords(origin)
 
         for iaxis, axis in enumerate(['x', 'y', 'z']):
-- 
2.43.0


From 637e1be432b22278bdb96257394ac237398f2a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:41 +0000
Subject: [PATCH 21/42] fix: leave the table keyword arguments of the caller
 unmodified

---
 src/triumvirate/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 43109fc..35dc3d5 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -334,7 +334,7 @@ class ParticleCatalogue:
             if table_kwargs is None:
                 table_kwargs = {}
             if format.startswith('ascii'):
-                table_kwargs.update(names=names)
+                table_kwargs = {**table_kwargs, 'names': names}
 
             self._pdata = Table.read(
                 filepath, format=format, **table_kwargs
-- 
2.43.0


From 182b2a4e10877633ea2e03a604b74a77df7b3880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:31 +0000
Subject: [PATCH 22/42] fix: derive extrapolated post-transform sample points
 from the extrapolated range

---
 src/triumvirate/src/fftlog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index 3fb92f7..37e0bdb 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -172,7 +172,7 @@ void HankelTransform::initialise(
     this->post_sampts_extrap.resize(this->nsamp_trans);
     for (int j = 0; j < this->nsamp_trans; j++) {
       this->post_sampts_extrap[j] =
-        kr_aprod / this->pre_sampts[this->nsamp_trans - j - 1];
+        kr_aprod / this->pre_sampts_extrap[this->nsamp_trans - j - 1];
     }
   }
 
-- 
2.43.0


From c521b6055dd2367a9e5c7f55a7769e2edaafc81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:31 +0000
Subject: [PATCH 23/42] fix: resize the output array of the spherical Bessel
 transform when its size differs

---
 src/triumvirate/src/fftlog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index 37e0bdb..3d89a9f 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -532,7 +532,7 @@ void SphericalBesselTransform::biased_transform(
       "The size of array `a` must be equal to the number of samples."
     );
   }
-  if (a.size() != N) {
+  if (b.size() != N) {
     b.resize(N);
   }
 
-- 
2.43.0


From 328cef72e8ba1bdd653bbb8ec4e766226bfbee17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:31 +0000
Subject: [PATCH 24/42] fix: leave the input samples of the spherical Bessel
 transform unmodified

---
 src/triumvirate/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index de5d496..391986a 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -197,7 +197,7 @@ class SphericalBesselTransform:
         if self._extrap_layer == 'outer':
             pre_samples = self._perform_extrap(pre_samples)
 
-        pre_samples *= self._pre_sampts ** (3./2)
+        pre_samples = np.asarray(pre_samples) * self._pre_sampts ** (3./2)
 
         post_sampts, post_samples = self._fbht.transform(pre_samples)
 
-- 
2.43.0


From 6a47a634c789b0b939be0e93edd7d7d87f08f0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:31 +0000
Subject: [PATCH 25/42] fix: return the pivots of the double spherical Bessel
 transform

---
 src/triumvirate/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index 391986a..af97258 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -413,7 +413,7 @@ class DoubleSphericalBesselTransform:
         tuple of float
 
         """  # numpydoc ignore=RT03
-        return (self._fbsjt[0]._pivot, self._fbsjt[1]._pivot)
+        return (self._fbsjt[0].pivot, self._fbsjt[1].pivot)
 
     def transform(self, pre_samples):
         """Transform samples at initialised sample points.
-- 
2.43.0


From b57f3fac10356bce138b240b64be239be151b89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:31 +0000
Subject: [PATCH 26/42] fix: return the sample points of each axis from the
 double spherical Bessel transform

---
 src/triumvirate/transforms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index af97258..7a45b45 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -448,7 +448,11 @@ class DoubleSphericalBesselTransform:
         post_samples = post_samples[self._post_slice, self._post_slice]
 
         post_sampts = np.meshgrid(
-            self._post_sampts, self._post_sampts, indexing='ij'
+            *[
+                np.asarray(fbsjt_._post_sampts)[self._post_slice]
+                for fbsjt_ in self._fbsjt
+            ],
+            indexing='ij'
         )
 
         return post_sampts, post_samples
-- 
2.43.0


From 9b2b79a839ec9b8605b3d827fb7e0561a6318baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:31 +0000
Subject: [PATCH 27/42] fix: compare all multipole indices when ordering
 multipoles

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 246bfe9..b42f6ca 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -272,7 +272,7 @@ class Multipole:
         if self.index[-1] > other.index[-1]:
             return False
 
-        for idx, idx_other in zip(self.index[:-2], other.index[:-2]):
+        for idx, idx_other in zip(self.index[:-1], other.index[:-1]):
             if idx < idx_other:
                 return True
             if idx > idx_other:
@@ -288,7 +288,7 @@ class Multipole:
         if self.index[-1] < other.index[-1]:
             return False
 
-        for idx, idx_other in zip(self.index[:-2], other.index[:-2]):
+        for idx, idx_other in zip(self.index[:-1], other.index[:-1]):
             if idx > idx_other:
                 return True
             if idx < idx_other:
-- 
2.43.0


From 1e0df295d22694a6ecf548ca881b94fbc30446f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:31 +0000
Subject: [PATCH 28/42] fix: generate window convolution matrices without MPI
 and stack them

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index b42f6ca..601cb5d 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2850,7 +2850,7 @@ class BispecWinConv(WinConvBase):
                     wcmat[multipole] = wcmat_[select_rows]
 
             return wcmat if (not concat or wcmat is None) \
-                else np.row_stack([
+                else np.vstack([
                     wcmat[multipole] for multipole in self._formulae.multipoles
                 ])
 
@@ -2875,7 +2875,7 @@ class BispecWinConv(WinConvBase):
                 wc_matrices[multipole_] = np.column_stack(
                     wc_matrices[multipole_]
                 )
-            return _return_wcmat(wc_matrices, concat)
+            return _return_wcmat(wc_matrices, concat, diag)
 
         # Run with MPI parallelisation.
         nthreads_env = os.getenv('OMP_NUM_THREADS')
-- 
2.43.0


From 7c8deb3877490ae53deb74dbbeef5f7db1cb3f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 29/42] fix: require sample points of every input multipole and
 none for the integral constraint

The multipole check on sample-point dictionaries was inverted, and a common
sample-point array was also assigned to the pseudo-multipole 'ic', which
the integral constraint calculation then failed to parse as a multipole.
---
 src/triumvirate/winconv.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 601cb5d..031fb29 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1667,7 +1667,7 @@ class WinConvBase:
                 Multipole(multipole): r_in[multipole]
                 for multipole in r_in.keys()
             }
-            if not set(self.r_in.keys()).issubset(self._formulae.multipoles_Z):
+            if not set(self._formulae._multipoles_Z_true).issubset(self.r_in):
                 raise ValueError(
                     "The input 2PCF separation sample points must contain all "
                     "the multipole keys required by the convolution formulae."
@@ -1675,7 +1675,7 @@ class WinConvBase:
         else:
             self.r_in = {
                 multipole: r_in
-                for multipole in self._formulae.multipoles_Z
+                for multipole in self._formulae._multipoles_Z_true
             }
 
         if r_out is None:
@@ -1989,7 +1989,7 @@ class PowspecWinConv(WinConvBase):
                 Multipole(key): val
                 for key, val in k_in.items()
             }
-            if not set(self.k_in.keys()).issubset(self._formulae.multipoles_Z):
+            if not set(self._formulae._multipoles_Z_true).issubset(self.k_in):
                 raise ValueError(
                     "The input power spectrum wavenumber sample points must "
                     "contain all the multipole keys required by the "
@@ -1998,7 +1998,7 @@ class PowspecWinConv(WinConvBase):
         else:
             self.k_in = {
                 multipole_Z: k_in
-                for multipole_Z in self._formulae.multipoles_Z
+                for multipole_Z in self._formulae._multipoles_Z_true
             }
 
         try:
@@ -2498,7 +2498,7 @@ class BispecWinConv(WinConvBase):
                 Multipole(key): val
                 for key, val in k_in.items()
             }
-            if not set(self.k_in.keys()).issubset(self._formulae.multipoles_Z):
+            if not set(self._formulae._multipoles_Z_true).issubset(self.k_in):
                 raise ValueError(
                     "The input bispectrum wavenumber sample points must "
                     "contain all the multipole keys required by the "
@@ -2507,7 +2507,7 @@ class BispecWinConv(WinConvBase):
         else:
             self.k_in = {
                 multipole_Z: k_in
-                for multipole_Z in self._formulae.multipoles_Z
+                for multipole_Z in self._formulae._multipoles_Z_true
             }
 
         self._k_in_orig = None
-- 
2.43.0


From e3fc5b5379d62633c615096ad2e74469fc2dbcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 30/42] fix: accept any multipole representation as keys of the
 convolution input

---
 src/triumvirate/winconv.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 031fb29..3dec1e5 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1857,6 +1857,8 @@ class TwoPCFWinConv(WinConvBase):
             a multipole) at sample points :attr:`r_out`.
 
         """
+        xi_in = {Multipole(key): val for key, val in xi_in.items()}
+
         xi_conv_out = {}
         for multipole in self._formulae.multipoles:
             summands = []
@@ -2105,6 +2107,8 @@ class PowspecWinConv(WinConvBase):
             (only returned if `ret_xi` is `True`).
 
         """
+        P_in = {Multipole(key): val for key, val in P_in.items()}
+
         # Backward transform power spectrum multipoles to 2PCF multipoles.
         xi_in = {}
         for multipole_Z in self._formulae._multipoles_Z_true:
@@ -2242,6 +2246,8 @@ class ThreePCFWinConv(WinConvBase):
             match the separation sample points of the input 3PCF.
 
         """
+        zeta_in = {Multipole(key): val for key, val in zeta_in.items()}
+
         # Enforce integral constraint.
         if 'ic' in self._formulae.multipoles_Z and ic is None:
             if self._catch_warnings:
@@ -2331,6 +2337,10 @@ class ThreePCFWinConv(WinConvBase):
                 "formulae but not provided."
             )
 
+        zeta_diag_in = {
+            Multipole(key): val for key, val in zeta_diag_in.items()
+        }
+
         # Perform convolution term by term.
         zeta_diag_conv_out = {}
         for multipole in self._formulae.multipoles:
@@ -2629,6 +2639,8 @@ class BispecWinConv(WinConvBase):
             (only returned if `ret_zeta` is `True`).
 
         """
+        B_in = {Multipole(key): val for key, val in B_in.items()}
+
         # Reinterpolate input bispectrum multipoles if necessary.
         if self._k_in_orig is not None:
             B_in = {
-- 
2.43.0


From 9be6fdb7fd87acbfcde758cc09af07681ddb07e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 31/42] fix: respace wavenumbers with their own number of
 points and keep the caller's transform arguments

---
 src/triumvirate/winconv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 3dec1e5..27906a7 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1968,7 +1968,7 @@ class PowspecWinConv(WinConvBase):
         super().__init__(formulae, window_sampts, window_multipoles)
 
         # Set default transform parameters.
-        self._transform_kwargs = transform_kwargs or {}
+        self._transform_kwargs = dict(transform_kwargs or {})
         # if 'pivot' not in self._transform_kwargs:
         #     self._transform_kwargs['pivot'] = 1.
         # if 'lowring' not in self._transform_kwargs:
@@ -2485,7 +2485,7 @@ class BispecWinConv(WinConvBase):
             )
 
         # Initialise default transform parameters.
-        self._transform_kwargs = transform_kwargs or {}
+        self._transform_kwargs = dict(transform_kwargs or {})
         # if 'pivot' not in self._transform_kwargs:
         #     self._transform_kwargs['pivot'] = 1.
         # if 'lowring' not in self._transform_kwargs:
@@ -2528,7 +2528,8 @@ class BispecWinConv(WinConvBase):
             self._k_in_orig = self.k_in.copy()
             self.k_in = {
                 multipole_Z: np.logspace(
-                    np.log10(_k_in_[0]), np.log10(_k_in_[-1]), len(k), base=10
+                    np.log10(_k_in_[0]), np.log10(_k_in_[-1]), len(_k_in_),
+                    base=10
                 )
                 for multipole_Z, _k_in_ in self._k_in_orig.items()
             }
-- 
2.43.0


From 0ff00c1e0040dea93c928e40fdb43144ac36ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 32/42] fix: repair subselection, resampling flag and reloading
 of three-point windows

Subselection not in place, by a dictionary of index ranges or by a partial
dictionary of separation ranges failed; make_loglin=True was taken as a
resampling size of one; windows loaded from a dictionary or a file lost the
documented attribute types.
---
 src/triumvirate/winconv.py | 48 ++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 27906a7..627c329 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -937,7 +937,8 @@ class ThreePointWindow:
         except (MixedSignError, SpacingError,):
             if make_loglin:
                 self.resample(
-                    size=make_loglin if isinstance(make_loglin, int) else None
+                    size=None if isinstance(make_loglin, bool)
+                    else make_loglin
                 )
             else:
                 warnings.warn(
@@ -1049,7 +1050,14 @@ class ThreePointWindow:
         """
         self = cls.__new__(cls)
 
-        self.r = dict_obj['r']
+        if isinstance(dict_obj['r'], dict):
+            self.r = {
+                Multipole(key): val for key, val in dict_obj['r'].items()
+            }
+        else:
+            self.r = {
+                Multipole(key): dict_obj['r'] for key in dict_obj['Q'].keys()
+            }
 
         self.Q = {}
         self.Q_diag = {}
@@ -1094,8 +1102,10 @@ class ThreePointWindow:
         self.Q = win_obj['Q'].item()
         self.Q_diag = win_obj['Q_diag'].item()
 
-        self.multipoles = win_obj['multipoles']
-        self.sources = win_obj['sources']
+        self.multipoles = [
+            Multipole(multipole) for multipole in win_obj['multipoles']
+        ]
+        self.sources = win_obj['sources'].tolist()
 
         return self
 
@@ -1144,6 +1154,11 @@ class ThreePointWindow:
             for the subselected range of separation sample points.
 
         """
+        def _select_by_range(r, rmin, rmax):  # numpydoc ignore=GL08
+            rmin = 0. if rmin is None else rmin
+            rmax = np.inf if rmax is None else rmax
+            return np.logical_and(rmin <= r, r <= rmax)
+
         if rrange is None:
             select_range = {
                 multipole: np.full_like(self.r[multipole], True, dtype=bool)
@@ -1151,20 +1166,16 @@ class ThreePointWindow:
             }
         elif isinstance(rrange, dict):
             select_range = {
-                Multipole(multipole): np.logical_and(
-                    rmin <= self.r[multipole], self.r[multipole] <= rmax
-                )
-                for multipole, (rmin, rmax) in rrange.items()
+                multipole: np.full_like(self.r[multipole], True, dtype=bool)
+                for multipole in self.multipoles
             }
+            for key, val in rrange.items():
+                select_range[Multipole(key)] = _select_by_range(
+                    self.r[Multipole(key)], *val
+                )
         else:
-            rmin, rmax = rrange
-            rmin = rmin or 0.
-            rmax = rmax or np.inf
             select_range = {
-                multipole: np.logical_and(
-                    rmin <= self.r[multipole],
-                    self.r[multipole] <= rmax
-                )
+                multipole: _select_by_range(self.r[multipole], *rrange)
                 for multipole in self.multipoles
             }
 
@@ -1182,7 +1193,7 @@ class ThreePointWindow:
                 select_idx[Multipole(key)] = np.full_like(
                     self.r[Multipole(key)], False, dtype=bool
                 )
-                select_idx[slice(*val)] = True
+                select_idx[Multipole(key)][slice(*val)] = True
         else:
             select_idx = {
                 multipole: np.full_like(self.r[multipole], False, dtype=bool)
@@ -1200,7 +1211,10 @@ class ThreePointWindow:
 
         if not inplace:
             instance = self.__class__.load_from_dict({
-                'r': self.r[multipole][selector[multipole]],
+                'r': {
+                    multipole: r_in_[selector[multipole]]
+                    for multipole, r_in_ in self.r.items()
+                },
                 'Q': {
                     multipole: Q_in_[
                         selector[multipole], :
-- 
2.43.0


From fde149a59da58107d02e00b1f5d9ccdc63fc2cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 33/42] fix: ignore the process total when the task numbers are
 given

---
 src/triumvirate/_mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/_mpitools.py b/src/triumvirate/_mpitools.py
index d6306be..8c89a31 100644
--- a/src/triumvirate/_mpitools.py
+++ b/src/triumvirate/_mpitools.py
@@ -88,7 +88,7 @@ def distribute_tasks(ntasks=None, task_total=None, proc_total=None):
 
     """
     ntasks = ntasks if ntasks else allocate_tasks(task_total, proc_total)
-    proc_total = proc_total if proc_total else len(ntasks)
+    proc_total = len(ntasks)
 
     breakpoints = np.insert(np.cumsum(ntasks), 0, values=0)
     segments = [
-- 
2.43.0


From 98078ab553e1142b20cb8b3284533da5a49f9532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 34/42] fix: gather complex window convolution matrices on a
 root process without tasks

---
 src/triumvirate/winconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 627c329..91e1618 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -3062,7 +3062,7 @@ class BispecWinConv(WinConvBase):
             sendbuf = np.asarray([
                 wc_basis_vectors[key]
                 for wc_basis_vectors in wc_basis_vectors_sublist
-            ])
+            ], dtype=complex)
             sendsizes = sendbuf.size
             recvsizes = self.comm.gather(sendsizes, root=self.comm_root)
             if self.comm.rank == self.comm_root:
-- 
2.43.0


From b4a12e0d99445032cfaa95eb9724ea9480bd0234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 35/42] fix: use the chosen spline order in the integral
 constraint

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 91e1618..e60e3c5 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2268,7 +2268,7 @@ class ThreePCFWinConv(WinConvBase):
                 with warnings.catch_warnings(record=True) as caught_warnings:
                     ic = calc_threept_ic(
                         self._rQ_in, self._Q_in, self.r_in, zeta_in,
-                        r_common=None, approx=False
+                        r_common=None, approx=False, spline=self.spline
                     )
                 restore_warnings(
                     caught_warnings, comm=self.comm, comm_root=self.comm_root
@@ -2276,7 +2276,7 @@ class ThreePCFWinConv(WinConvBase):
             else:
                 ic = calc_threept_ic(
                     self._rQ_in, self._Q_in, self.r_in, zeta_in,
-                    r_common=None, approx=False
+                    r_common=None, approx=False, spline=self.spline
                 )
 
         # Perform convolution term by term.
-- 
2.43.0


From 7fde80d9dc272616c9d4da3445a10bc502b0f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:49 +0000
Subject: [PATCH 36/42] fix: allow different numbers of sample points per
 dimension in resampling

---
 src/triumvirate/transforms.py | 38 +++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index 7a45b45..3b32484 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -527,6 +527,26 @@ class DoubleSphericalBesselTransform:
         return arr
 
 
+def _get_sampts_per_dim(sampts):
+    """Get 1-d sample points in each dimension.
+
+    Parameters
+    ----------
+    sampts : array_like or sequence of array_like
+        Sample points (1-d in each dimension).
+
+    Returns
+    -------
+    list of :class:`numpy.ndarray`
+        Sample points in each dimension, which may differ in size.
+
+    """
+    sampts = [np.squeeze(pts) for pts in sampts]
+    if all(pts.ndim == 0 for pts in sampts):
+        return [np.array(sampts)]
+    return sampts
+
+
 def resample_lglin(sampts, samples, size=None, spline=3):
     """Resample at logarithmically spaced sample points in 1- or 2-d.
 
@@ -571,12 +591,13 @@ def resample_lglin(sampts, samples, size=None, spline=3):
     Resampling is accurate: True
 
     """
-    sampts = np.squeeze(sampts)
+    sampts = _get_sampts_per_dim(sampts)
     samples = np.squeeze(samples)
 
     if samples.ndim == 1:
-        if sampts.ndim != 1:
+        if len(sampts) != 1 or sampts[0].ndim != 1:
             raise ValueError("Sample points must be 1-d.")
+        sampts = sampts[0]
 
         resampts = np.logspace(
             np.log10(sampts[0]), np.log10(sampts[-1]), size or len(sampts),
@@ -589,8 +610,8 @@ def resample_lglin(sampts, samples, size=None, spline=3):
         return resampts, resamples
 
     if samples.ndim == 2:
-        if sampts.ndim == 1:
-            sampts = np.array([sampts, sampts])
+        if len(sampts) == 1:
+            sampts = [sampts[0], sampts[0]]
         if len(sampts) != 2 or sampts[0].ndim != 1 or sampts[-1].ndim != 1:
             raise ValueError(
                 "Must provide (two) 1-d array(s) as sample points "
@@ -662,12 +683,13 @@ def resample_lin(sampts, samples, size=None, spline=3):
     Resampling is accurate: True
 
     """
-    sampts = np.squeeze(sampts)
+    sampts = _get_sampts_per_dim(sampts)
     samples = np.squeeze(samples)
 
     if samples.ndim == 1:
-        if sampts.ndim != 1:
+        if len(sampts) != 1 or sampts[0].ndim != 1:
             raise ValueError("Sample points must be 1-d.")
+        sampts = sampts[0]
 
         resampts = np.linspace(
             sampts[0], sampts[-1], size or len(sampts)
@@ -679,8 +701,8 @@ def resample_lin(sampts, samples, size=None, spline=3):
         return resampts, resamples
 
     if samples.ndim == 2:
-        if sampts.ndim == 1:
-            sampts = np.array([sampts, sampts])
+        if len(sampts) == 1:
+            sampts = [sampts[0], sampts[0]]
         if len(sampts) != 2 or sampts[0].ndim != 1 or sampts[-1].ndim != 1:
             raise ValueError(
                 "Must provide (two) 1-d array(s) as sample points "
-- 
2.43.0


From 255ac300c485a5b07dcf3ecb320702b71ecf4362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:49 +0000
Subject: [PATCH 37/42] fix: keep 1-d log-linear resampling points in the
 original range despite rounding

---
 src/triumvirate/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index 3b32484..19958a8 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -603,6 +603,8 @@ def resample_lglin(sampts, samples, size=None, spline=3):
             np.log10(sampts[0]), np.log10(sampts[-1]), size or len(sampts),
             base=10
         )
+        # Keep the end points within the original range despite rounding.
+        resampts = np.clip(resampts, sampts[0], sampts[-1])
         resamples = InterpolatedUnivariateSpline(
             sampts, samples, k=spline, ext='raise'
         )(resampts)
-- 
2.43.0


From 069ef48ce92e03b741374f264db41d1bea6a2f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:47 +0000
Subject: [PATCH 38/42] fix: derive the unset box size from catalogue spans and
 pass derived values to the core

---
 src/triumvirate/threept.py | 12 ++++++------
 src/triumvirate/twopt.py   | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index b8e2e3e..f3b509b 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -540,8 +540,8 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_rand.bounds[ax] * paramset['expand']
-        paramset._validate()
+                catalogue_rand.spans[ax] * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -553,7 +553,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
@@ -1441,8 +1441,8 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_data.bounds[ax] * paramset['expand']
-        paramset._validate()
+                catalogue_data.spans[ax] * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -1454,7 +1454,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 1d03c07..4e82758 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -463,8 +463,8 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_rand.bounds[ax] * paramset['expand']
-        paramset._validate()
+                catalogue_rand.spans[ax] * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -476,7 +476,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
@@ -997,8 +997,8 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_data.bounds[ax] * paramset['expand']
-        paramset._validate()
+                catalogue_data.spans[ax] * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -1010,7 +1010,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
-- 
2.43.0


From 03a0b1e030c102b0b8322682ab0c126dfa3aa4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:03 +0000
Subject: [PATCH 39/42] fix: derive unset mesh grid numbers once the
 measurement space is known

---
 src/triumvirate/parameters.pyx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 4cf4bd2..0077e16 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -378,6 +378,7 @@ cdef class ParameterSet:
                 "the box size will be computed using the particle "
                 "coordinate spans and the box expansion factor.",
             )
+            self.thisptr.boxsize = [0., 0., 0.]
         else:
             self.thisptr.boxsize = [
                 float(self._params['boxsize']['x']),
@@ -391,6 +392,7 @@ cdef class ParameterSet:
                 "the grid cell number will be computed using the box size "
                 "and the Nyquist cutoff.",
             )
+            self.thisptr.ngrid = [0, 0, 0]
         else:
             self.thisptr.ngrid = [
                 self._params['ngrid']['x'],
@@ -477,9 +479,9 @@ cdef class ParameterSet:
 
         if self._params['nmesh'] == 0:
             if (cutoff_nyq_ := self._params.get('cutoff_nyq')) is not None:
+                # The mesh grid numbers are derived from the box size
+                # (if set) and the Nyquist cutoff during validation.
                 self.thisptr.cutoff_nyq = cutoff_nyq_
-                if self._params['volume'] > 0.:
-                    self._params = _set_ngrid_from_cutoff(self._params)
             else:
                 raise InvalidParameterError(
                     "`cutoff_nyq` parameter must be set "
@@ -563,6 +565,11 @@ cdef class ParameterSet:
         self._params['assignment_order'] = self.thisptr.assignment_order
         self._params['npoint'] = self.thisptr.npoint.decode('utf-8')
         self._params['space'] = self.thisptr.space.decode('utf-8')
+        if None in self._params['ngrid'].values() and self.thisptr.nmesh > 0:
+            self._params['ngrid'] = dict(zip(
+                ['x', 'y', 'z'], self.thisptr.ngrid
+            ))
+            self._params['nmesh'] = self.thisptr.nmesh
         self._params['fftw_planner_flag'] = self.thisptr.fftw_planner_flag
         self._params['fftw_wisdom_file_f'] = \
             self.thisptr.fftw_wisdom_file_f.decode('utf-8')
-- 
2.43.0


From e03a6b66993d87615974ce4c9324f90ec9ed3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:14 +0000
Subject: [PATCH 40/42] fix: update overridden parameters at once so that valid
 overrides are not rejected

---
 src/triumvirate/parameters.pyx | 88 +++++++++++++++-------------------
 1 file changed, 38 insertions(+), 50 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 0077e16..3d796b0 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -734,52 +734,38 @@ def _modify_sampling_parameters(paramset, params_sampling=None,
                 "`params_default` should be a subdictionary of `paramset`."
             )
 
-    if 'expand' in params_sampling.keys():
-        paramset['expand'] = params_sampling['expand']
-        if params_default: params_default.pop('expand', None)
-    if 'alignment' in params_sampling.keys():
-        paramset['alignment'] = params_sampling['alignment']
-        if params_default: params_default.pop('alignment', None)
-
-    if paramset.get('alignment') == 'pad':
+    # Update all parameters at once, as each update to a parameter set
+    # is validated.
+    updates = {}
+
+    for key in ['expand', 'alignment']:
+        if key in params_sampling.keys():
+            updates[key] = params_sampling[key]
+
+    if updates.get('alignment', paramset.get('alignment')) == 'pad':
         if 'boxpad' in params_sampling.keys() \
                 and 'gridpad' in params_sampling.keys():
             raise ValueError(
                 "Cannot set both 'boxpad` and 'gridpad' in `params_sampling`."
             )
     if 'boxpad' in params_sampling.keys():
-        paramset['padscale'] = 'box'
-        paramset['padfactor'] = params_sampling['boxpad']
-        if params_default:
-            params_default.pop('padscale', None)
-            params_default.pop('padfactor', None)
+        updates['padscale'] = 'box'
+        updates['padfactor'] = params_sampling['boxpad']
     if 'gridpad' in params_sampling.keys():
-        paramset['padscale'] = 'grid'
-        paramset['padfactor'] = params_sampling['gridpad']
-        if params_default:
-            params_default.pop('padscale', None)
-            params_default.pop('padfactor', None)
-
-    if 'boxsize' in params_sampling.keys():
-        paramset['boxsize'] = dict(zip(
-            ['x', 'y', 'z'], params_sampling['boxsize']
-        ))
-        if params_default: params_default.pop('boxsize', None)
-    if 'ngrid' in params_sampling.keys():
-        paramset['ngrid'] = dict(zip(
-            ['x', 'y', 'z'], params_sampling['ngrid']
-        ))
-        if params_default: params_default.pop('ngrid', None)
-    if 'assignment' in params_sampling.keys():
-        paramset['assignment'] = params_sampling['assignment']
-        if params_default: params_default.pop('assignment', None)
-    if 'interlace' in params_sampling.keys():
-        paramset['interlace'] = params_sampling['interlace']
-        if params_default: params_default.pop('interlace', None)
-
-    if 'cutoff_nyq' in params_sampling.keys():
-        paramset['cutoff_nyq'] = params_sampling['cutoff_nyq']
-        if params_default: params_default.pop('cutoff_nyq', None)
+        updates['padscale'] = 'grid'
+        updates['padfactor'] = params_sampling['gridpad']
+
+    for key in ['boxsize', 'ngrid']:
+        if key in params_sampling.keys():
+            updates[key] = dict(zip(['x', 'y', 'z'], params_sampling[key]))
+    for key in ['assignment', 'interlace', 'cutoff_nyq']:
+        if key in params_sampling.keys():
+            updates[key] = params_sampling[key]
+
+    paramset.update(updates)
+    if params_default:
+        for key in updates:
+            params_default.pop(key, None)
 
     if ret_defaults:
         return paramset, params_default
@@ -849,21 +835,23 @@ def _modify_measurement_parameters(paramset, params_measure=None,
             paramset['wa_orders'][waorder_label.rstrip('_wa')] = \
                 params_measure[waorder_label]
 
-    # Update 'idx_bin' before 'form' owing to dependency.
-    if 'idx_bin' in params_measure.keys():
-        paramset['idx_bin'] = params_measure['idx_bin']
-        if params_default: params_default.pop('idx_bin', None)
-    if 'form' in params_measure.keys():
-        paramset['form'] = params_measure['form']
-        if params_default: params_default.pop('form', None)
-
     if 'bin_min' in params_measure.keys():
         paramset['range'][0] = params_measure['bin_min']
     if 'bin_max' in params_measure.keys():
         paramset['range'][1] = params_measure['bin_max']
-    if 'num_bins' in params_measure.keys():
-        paramset['num_bins'] = params_measure['num_bins']
-        if params_default: params_default.pop('num_bins', None)
+
+    # Update interdependent parameters at once, as each update to
+    # a parameter set is validated.
+    updates = {
+        key: params_measure[key]
+        for key in ['num_bins', 'idx_bin', 'form']
+        if key in params_measure.keys()
+    }
+
+    paramset.update(updates)
+    if params_default:
+        for key in updates:
+            params_default.pop(key, None)
 
     if ret_defaults:
         return paramset, params_default
-- 
2.43.0


From 5afcd78dba5722b69c4aff6e0399b463d3191675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:14 +0000
Subject: [PATCH 41/42] fix: keep output tags containing dots in measurement
 file names

---
 src/triumvirate/threept.py | 16 ++++++++--------
 src/triumvirate/twopt.py   | 12 ++++++------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index f3b509b..423bb22 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -720,14 +720,14 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1284,7 +1284,7 @@ def compute_3pcf(catalogue_data, catalogue_rand,
 #                 ['% .9e'] * (datatab.shape[-1] - 6)
 #             )
 #             ofilename = _get_measurement_filename(paramset)
-#             ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+#             ofilepath = Path(odirpath, ofilename + '.txt')
 #             np.savetxt(
 #                 ofilepath, datatab,
 #                 fmt=datafmt, header=header, delimiter='\t'
@@ -1292,7 +1292,7 @@ def compute_3pcf(catalogue_data, catalogue_rand,
 #         elif save.lower().endswith('.npz'):
 #             results.update({'header': header})
 #             ofilename = _get_measurement_filename(paramset)
-#             ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+#             ofilepath = Path(odirpath, ofilename + '.npz')
 #             np.savez(ofilepath, **results)
 #         else:
 #             raise ValueError(
@@ -1601,14 +1601,14 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -2085,14 +2085,14 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 4e82758..5c9df22 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -645,14 +645,14 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1156,14 +1156,14 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1567,14 +1567,14 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
-- 
2.43.0


From 14d79f4ed8bd99ae62cfc35ba575b3f6a42da4b3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:14:19 +0000
Subject: [PATCH 42/42] fix: accept a plain logger in the measurement functions

The fallback for loggers without the package's stat method passed a
keyword that only the package's own adapter knows, so a standard
logging.Logger raised TypeError.
---
 src/triumvirate/threept.py | 30 ++++++++++--------------------
 src/triumvirate/twopt.py   | 30 ++++++++++--------------------
 2 files changed, 20 insertions(+), 40 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 423bb22..dd4dd42 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -600,8 +600,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -617,8 +616,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -679,8 +677,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             logger.info(
                 "Measuring %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = threept_algofunc(
@@ -700,8 +697,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             logger.info(
                 "... measured %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1497,8 +1493,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -1512,8 +1507,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -1563,8 +1557,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             logger.info(
                 "Measuring %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = threept_algofunc(particles_data, paramset, binning, norm_factor)
@@ -1581,8 +1574,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             logger.info(
                 "... measured %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -2045,8 +2037,7 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "Measuring three-point correlation function window "
-                "from a random catalogue...",
-                cpp_state='start'
+                "from a random catalogue..."
             )
 
     results = _compute_3pcf_window(
@@ -2065,8 +2056,7 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "... measured three-point correlation function window "
-                "from a random catalogue.",
-                cpp_state='end'
+                "from a random catalogue."
             )
 
     if save:
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 5c9df22..0d93700 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -523,8 +523,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -540,8 +539,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -605,8 +603,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             logger.info(
                 "Measuring %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = twopt_algofunc(
@@ -626,8 +623,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             logger.info(
                 "... measured %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1053,8 +1049,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data =  \
@@ -1068,8 +1063,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -1119,8 +1113,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             logger.info(
                 "Measuring %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = twopt_algofunc(particles_data, paramset, binning, norm_factor)
@@ -1137,8 +1130,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             logger.info(
                 "... measured %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1529,8 +1521,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "Measuring two-point correlation function window "
-                "from a random catalogue...",
-                cpp_state='start'
+                "from a random catalogue..."
             )
 
     results = _compute_corrfunc_window(
@@ -1548,8 +1539,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "... measured two-point correlation function window "
-                "from a random catalogue.",
-                cpp_state='end'
+                "from a random catalogue."
             )
 
     if save:
-- 
2.43.0

