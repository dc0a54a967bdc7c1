From f3d03a5e9fcbcc74121f054696aeaaafcdfe5e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 01/88] fix: refresh catalogue bounds and weight totals when a
 column is set

---
 src/triumvirate/catalogue.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index bcddf2c..02c0fbc 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -431,6 +431,14 @@ class ParticleCatalogue:
         """
         if isinstance(key, str):
             self._pdata[key] = val
+            # Keep the derived catalogue properties up to date.
+            if key in {'x', 'y', 'z'}:
+                self._calc_bounds()
+            elif key in {'ws', 'wc'}:
+                self.wtotal = self._compute(
+                    (self._pdata['ws'] * self._pdata['wc']).sum()
+                )
+                self.wstotal = self._compute(self._pdata['ws'].sum())
         else:
             raise ValueError('Cannot set values for non-string-type key.')
 
-- 
2.43.0


From 93aed092ba82655199863b9ae0b7bfde6fb66004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 02/88] fix: accept a scalar origin in
 ParticleCatalogue.offset_coords as documented

---
 src/triumvirate/catalogue.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 02c0fbc..e8f0dbd 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -692,6 +692,9 @@ class ParticleCatalogue:
             Coordinates of the new origin.
 
         """
+        if np.isscalar(origin):
+            origin = [origin, origin, origin]
+
         for axis, coord in zip(['x', 'y', 'z'], origin):
             self._pdata[axis] -= coord
 
-- 
2.43.0


From 2c5431d6d5df355dd951fe6d77f3b1609d72610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 03/88] fix: wrap negative multiples of the box size to zero,
 not to the box size

---
 src/triumvirate/src/particles.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 0212f53..7882b12 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -691,6 +691,10 @@ offset_coords_for_periodicity(const double boxsize[3]) {
         this->pdata[pid].pos[iaxis] = std::fmod(
           this->pdata[pid].pos[iaxis], boxsize[iaxis]
         ) + boxsize[iaxis];
+        // Guard against wrapping onto the (excluded) upper box boundary.
+        if (this->pdata[pid].pos[iaxis] >= boxsize[iaxis]) {
+          this->pdata[pid].pos[iaxis] = 0.;
+        }
       }
     }
   }
-- 
2.43.0


From 2543a3f84d83c68d65a270c6d514bdc25819db27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 04/88] fix: release memory count of old particle number when
 particles are renewed

---
 src/triumvirate/src/particles.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 7882b12..eef9b25 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -55,11 +55,11 @@ void ParticleCatalogue::initialise_particles(const int num) {
     );
   }
 
-  this->ntotal = num;
-
   // Renew particle data.
   this->reset_particles();
 
+  this->ntotal = num;
+
   this->pdata = new ParticleData[this->ntotal];
   trvs::gbytesMem += trvs::size_in_gb<struct ParticleData>(this->ntotal);
   trvs::update_maxmem();
-- 
2.43.0


From 543449d4b42c968f5c70cb02094b91be88416636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 05/88] fix: reject text catalogues lacking required columns
 instead of reading out of bounds

---
 src/triumvirate/src/particles.cpp | 46 ++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index eef9b25..a3f784b 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -381,6 +381,25 @@ int ParticleCatalogue::load_catalogue_file(
     }
 #endif  // TRV_USE_H5
   } else {
+    // Check mandatory columns and find the number of columns required.
+    for (int iaxis = 0; iaxis < 3; iaxis++) {
+      if (name_indices[iaxis] == -1) {
+        if (trvs::currTask == 0) {
+          trvs::logger.error(
+            "Mandatory catalogue column '%s' is missing (source=%s).",
+            names_ordered[iaxis].c_str(), this->source.c_str()
+          );
+        }
+        throw trvs::InvalidDataError(
+          "Mandatory catalogue column '%s' is missing (source=%s).",
+          names_ordered[iaxis].c_str(), this->source.c_str()
+        );
+      }
+    }
+    std::size_t ncol_required = static_cast<std::size_t>(
+      *std::max_element(name_indices.begin(), name_indices.end()) + 1
+    );
+
     int nentry = 0;
     for (const auto& ctlg_subfilepath : catalogue_subfilepaths) {
       std::ifstream fin;
@@ -406,8 +425,11 @@ int ParticleCatalogue::load_catalogue_file(
         // Terminate at the end of file.
         if (!fin) {break;}
 
-        // Skip empty lines or comment lines.
-        if (line_str.empty() || line_str[0] == '#') {continue;}
+        // Skip blank lines or comment lines.
+        std::size_t idx_char = line_str.find_first_not_of(" \t\r");
+        if (idx_char == std::string::npos || line_str[idx_char] == '#') {
+          continue;
+        }
 
         // Count the line as valid otherwise.
         num_lines++;
@@ -449,8 +471,11 @@ int ParticleCatalogue::load_catalogue_file(
         // Terminate at the end of file.
         if (!fin) {break;}
 
-        // Skip empty lines or comment lines.
-        if (entry_str.empty() || entry_str[0] == '#') {continue;}
+        // Skip blank lines or comment lines.
+        std::size_t idx_char = entry_str.find_first_not_of(" \t\r");
+        if (idx_char == std::string::npos || entry_str[idx_char] == '#') {
+          continue;
+        }
 
         // Extract row entries.
         std::vector<double> row;
@@ -461,6 +486,19 @@ int ParticleCatalogue::load_catalogue_file(
         );
         while (ss >> entry) {row.push_back(entry);}
 
+        // Check that all required columns are present.
+        if (row.size() < ncol_required) {
+          if (trvs::currTask == 0) {
+            trvs::logger.error(
+              "Missing columns in catalogue file: %s",
+              ctlg_subfilepath.c_str()
+            );
+          }
+          throw trvs::InvalidDataError(
+            "Missing columns in catalogue file: %s", ctlg_subfilepath.c_str()
+          );
+        }
+
         // Add the current line as a particle.
         this->pdata[idx_entry].pos[0] = row[name_indices[0]];  // x
         this->pdata[idx_entry].pos[1] = row[name_indices[1]];  // y
-- 
2.43.0


From 40cd29a0b758780eed78ae0bc0d975724c2eb3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 06/88] fix: wrap particles exactly half a cell below the upper
 box face in interlaced assignment

---
 src/triumvirate/src/field.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 37d55a5..3be2209 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -689,7 +689,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -800,7 +800,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -929,7 +929,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -1067,7 +1067,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
-- 
2.43.0


From e24685401cfd58b6851f1bac4dbabf5e7a04ad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 07/88] fix: wrap the uppermost TSC cell periodically in
 interlaced assignment

---
 src/triumvirate/src/field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 3be2209..6ec418b 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -945,7 +945,7 @@ OMP_ATOMIC
           ijk[0][iaxis] = idx_grid;
           ijk[1][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
             ? 0 : ijk[0][iaxis] + 1;
-          ijk[2][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
+          ijk[2][iaxis] = (ijk[1][iaxis] == this->params.ngrid[iaxis] - 1)
             ? 0 : ijk[1][iaxis] + 1;
         }
 
-- 
2.43.0


From 438cfbcd0b0d3cbb91f8291f1b2abebc88040110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 08/88] fix: assign particles on the upper box boundary
 periodically

---
 src/triumvirate/src/field.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 6ec418b..5ee6337 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -643,6 +643,11 @@ void MeshField::assign_weighted_field_to_mesh_ngp(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      // The upper box boundary is the periodic image of the lower one.
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
       if (loc_grid - idx_grid >= 0.5) {
         idx_grid = (idx_grid == this->params.ngrid[iaxis] - 1)
@@ -753,6 +758,11 @@ void MeshField::assign_weighted_field_to_mesh_cic(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      // The upper box boundary is the periodic image of the lower one.
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       ijk[0][iaxis] = idx_grid;
@@ -864,6 +874,11 @@ void MeshField::assign_weighted_field_to_mesh_tsc(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      // The upper box boundary is the periodic image of the lower one.
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       if (loc_grid - idx_grid < 0.5) {
@@ -1012,6 +1027,11 @@ void MeshField::assign_weighted_field_to_mesh_pcs(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      // The upper box boundary is the periodic image of the lower one.
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       ijk[0][iaxis] = (idx_grid == 0)
-- 
2.43.0


From 40d2a03274b23278933ab288d2df4d879b8f282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 09/88] fix: apply mean subtraction and alpha contrast to the
 interlaced shadow mesh too

---
 src/triumvirate/src/field.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 5ee6337..5ed4088 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -1261,6 +1261,15 @@ void MeshField::compute_unweighted_field_fluctuations_insitu(
     this->field[gid][0] -= nbar;
     // this->field[gid][1] -= 0.; (unused)
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] -= nbar;
+    }
+  }
 }
 
 void MeshField::compute_ylm_wgtd_field(
@@ -1379,6 +1388,16 @@ void MeshField::compute_ylm_wgtd_field(
     this->field[gid][0] *= alpha;
     this->field[gid][1] *= alpha;
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] *= alpha;
+      this->field_s[gid][1] *= alpha;
+    }
+  }
 }
 
 void MeshField::compute_ylm_wgtd_quad_field(
@@ -1506,6 +1525,16 @@ void MeshField::compute_ylm_wgtd_quad_field(
     this->field[gid][0] *= std::pow(alpha, 2);
     this->field[gid][1] *= std::pow(alpha, 2);
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] *= std::pow(alpha, 2);
+      this->field_s[gid][1] *= std::pow(alpha, 2);
+    }
+  }
 }
 
 
-- 
2.43.0


From 51a5593de94cfbdcfd52c19b1fd16ee1ecacdc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 10/88] fix: label grid vectors of odd-sized meshes by the
 nearest periodic image

---
 src/triumvirate/src/field.cpp | 36 +++++++++++++++++------------------
 src/triumvirate/src/maths.cpp | 12 ++++++------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 5ed4088..6f7d682 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -538,26 +538,26 @@ long long MeshField::ret_grid_index(int i, int j, int k) {
 }
 
 void MeshField::shift_grid_indices_fourier(int& i, int& j, int& k) {
-  i = (i < this->params.ngrid[0]/2) ? i : i - this->params.ngrid[0];
-  j = (j < this->params.ngrid[1]/2) ? j : j - this->params.ngrid[1];
-  k = (k < this->params.ngrid[2]/2) ? k : k - this->params.ngrid[2];
+  i = (i < (this->params.ngrid[0] + 1)/2) ? i : i - this->params.ngrid[0];
+  j = (j < (this->params.ngrid[1] + 1)/2) ? j : j - this->params.ngrid[1];
+  k = (k < (this->params.ngrid[2] + 1)/2) ? k : k - this->params.ngrid[2];
 }
 
 void MeshField::get_grid_pos_vector(int i, int j, int k, double rvec[3]) {
-  rvec[0] = (i < this->params.ngrid[0]/2) ?
+  rvec[0] = (i < (this->params.ngrid[0] + 1)/2) ?
     i * this->dr[0] : (i - this->params.ngrid[0]) * this->dr[0];
-  rvec[1] = (j < this->params.ngrid[1]/2) ?
+  rvec[1] = (j < (this->params.ngrid[1] + 1)/2) ?
     j * this->dr[1] : (j - this->params.ngrid[1]) * this->dr[1];
-  rvec[2] = (k < this->params.ngrid[2]/2) ?
+  rvec[2] = (k < (this->params.ngrid[2] + 1)/2) ?
     k * this->dr[2] : (k - this->params.ngrid[2]) * this->dr[2];
 }
 
 void MeshField::get_grid_wavevector(int i, int j, int k, double kvec[3]) {
-  kvec[0] = (i < this->params.ngrid[0]/2) ?
+  kvec[0] = (i < (this->params.ngrid[0] + 1)/2) ?
     i * this->dk[0] : (i - this->params.ngrid[0]) * this->dk[0];
-  kvec[1] = (j < this->params.ngrid[1]/2) ?
+  kvec[1] = (j < (this->params.ngrid[1] + 1)/2) ?
     j * this->dk[1] : (j - this->params.ngrid[1]) * this->dk[1];
-  kvec[2] = (k < this->params.ngrid[2]/2) ?
+  kvec[2] = (k < (this->params.ngrid[2] + 1)/2) ?
     k * this->dk[2] : (k - this->params.ngrid[2]) * this->dk[2];
 }
 
@@ -1671,13 +1671,13 @@ void MeshField::fourier_transform() {
 
           // Calculate the index vector representing the grid cell.
           double m[3];
-          m[0] = (i < this->params.ngrid[0]/2)
+          m[0] = (i < (this->params.ngrid[0] + 1)/2)
             ? double(i) / this->params.ngrid[0]
             : double(i) / this->params.ngrid[0] - 1;
-          m[1] = (j < this->params.ngrid[1]/2)
+          m[1] = (j < (this->params.ngrid[1] + 1)/2)
             ? double(j) / this->params.ngrid[1]
             : double(j) / this->params.ngrid[1] - 1;
-          m[2] = (k < this->params.ngrid[2]/2)
+          m[2] = (k < (this->params.ngrid[2] + 1)/2)
             ? double(k) / this->params.ngrid[2]
             : double(k) / this->params.ngrid[2] - 1;
 
@@ -2358,9 +2358,9 @@ long long FieldStats::ret_grid_index(int i, int j, int k) {
 }
 
 void FieldStats::shift_grid_indices_fourier(int& i, int& j, int& k) {
-  i = (i < this->params.ngrid[0]/2) ? i : i - this->params.ngrid[0];
-  j = (j < this->params.ngrid[1]/2) ? j : j - this->params.ngrid[1];
-  k = (k < this->params.ngrid[2]/2) ? k : k - this->params.ngrid[2];
+  i = (i < (this->params.ngrid[0] + 1)/2) ? i : i - this->params.ngrid[0];
+  j = (j < (this->params.ngrid[1] + 1)/2) ? j : j - this->params.ngrid[1];
+  k = (k < (this->params.ngrid[2] + 1)/2) ? k : k - this->params.ngrid[2];
 }
 
 trv::BinnedVectors FieldStats::record_binned_vectors(
@@ -2463,11 +2463,11 @@ trv::BinnedVectors FieldStats::record_binned_vectors(
   for (int i: i_range) {
     for (int j: j_range) {
       for (int k: k_range) {
-        double vx = (i < this->params.ngrid[0]/2) ?
+        double vx = (i < (this->params.ngrid[0] + 1)/2) ?
           i * cellsizes[0] : (i - this->params.ngrid[0]) * cellsizes[0];
-        double vy = (j < this->params.ngrid[1]/2) ?
+        double vy = (j < (this->params.ngrid[1] + 1)/2) ?
           j * cellsizes[1] : (j - this->params.ngrid[1]) * cellsizes[1];
-        double vz = (k < this->params.ngrid[2]/2) ?
+        double vz = (k < (this->params.ngrid[2] + 1)/2) ?
           k * cellsizes[2] : (k - this->params.ngrid[2]) * cellsizes[2];
 
         double scale = trvm::get_vec3d_magnitude({vx, vy, vz});
diff --git a/src/triumvirate/src/maths.cpp b/src/triumvirate/src/maths.cpp
index 4358e40..2411c9c 100644
--- a/src/triumvirate/src/maths.cpp
+++ b/src/triumvirate/src/maths.cpp
@@ -249,9 +249,9 @@ store_reduced_spherical_harmonic_in_fourier_space(
         // that negative wavenumbers/frequencies come after zero and
         // positive wavenumbers/frequencies.
         double kvec[3];
-        kvec[0] = (i < ngrid[0]/2) ? i * dk[0] : (i - ngrid[0]) * dk[0];
-        kvec[1] = (j < ngrid[1]/2) ? j * dk[1] : (j - ngrid[1]) * dk[1];
-        kvec[2] = (k < ngrid[2]/2) ? k * dk[2] : (k - ngrid[2]) * dk[2];
+        kvec[0] = (i < (ngrid[0] + 1)/2) ? i * dk[0] : (i - ngrid[0]) * dk[0];
+        kvec[1] = (j < (ngrid[1] + 1)/2) ? j * dk[1] : (j - ngrid[1]) * dk[1];
+        kvec[2] = (k < (ngrid[2] + 1)/2) ? k * dk[2] : (k - ngrid[2]) * dk[2];
 
         ylm_out[idx_grid] = calc_reduced_spherical_harmonic(ell, m, kvec);
       }
@@ -291,9 +291,9 @@ store_reduced_spherical_harmonic_in_config_space(
         // that negative wavenumbers/frequencies come after zero and
         // positive wavenumbers/frequencies.
         double rvec[3];
-        rvec[0] = (i < ngrid[0]/2) ? i * dr[0] : (i - ngrid[0]) * dr[0];
-        rvec[1] = (j < ngrid[1]/2) ? j * dr[1] : (j - ngrid[1]) * dr[1];
-        rvec[2] = (k < ngrid[2]/2) ? k * dr[2] : (k - ngrid[2]) * dr[2];
+        rvec[0] = (i < (ngrid[0] + 1)/2) ? i * dr[0] : (i - ngrid[0]) * dr[0];
+        rvec[1] = (j < (ngrid[1] + 1)/2) ? j * dr[1] : (j - ngrid[1]) * dr[1];
+        rvec[2] = (k < (ngrid[2] + 1)/2) ? k * dr[2] : (k - ngrid[2]) * dr[2];
 
         ylm_out[idx_grid] = calc_reduced_spherical_harmonic(ell, m, rvec);
       }
-- 
2.43.0


From 3abee0d587e98926f2f0e3685f21959c23947f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 11/88] fix: reject bin ranges and numbers for which the
 requested binning is not increasing

---
 src/triumvirate/src/dataobjs.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/triumvirate/src/dataobjs.cpp b/src/triumvirate/src/dataobjs.cpp
index 0b184b6..985770b 100644
--- a/src/triumvirate/src/dataobjs.cpp
+++ b/src/triumvirate/src/dataobjs.cpp
@@ -139,6 +139,28 @@ void Binning::compute_binning() {
   } else
   if (this->space == "config") {
     dbin_pad = this->dbin_pad_config;
+  } else {
+    throw trvs::InvalidParameterError(
+      "Unrecognised/unsupported binning `space`: %s.", this->space.c_str()
+    );
+  }
+
+  // Check the binning range and number.
+  if (!(this->bin_min < this->bin_max)) {
+    throw trvs::InvalidParameterError("Bin range must be increasing.");
+  }
+  if (scheme == "linpad" || scheme == "logpad") {
+    if (this->num_bins <= this->nbin_pad) {
+      throw trvs::InvalidParameterError(
+        "Number of bins must exceed the number of padded bins: %d.",
+        this->nbin_pad
+      );
+    }
+    if (!(dbin_pad * this->nbin_pad < this->bin_max)) {
+      throw trvs::InvalidParameterError(
+        "Bin range must extend beyond the padded bins."
+      );
+    }
   }
 
   // Implement binning scheme.
-- 
2.43.0


From d469b8dbc6da1a51aabc940cad8c970f5f20c8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 12/88] fix: pass current binning scheme and space to the
 compiled binning when bins are set

---
 src/triumvirate/dataobjs.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/triumvirate/dataobjs.pyx b/src/triumvirate/dataobjs.pyx
index 40e614e..bcd4013 100644
--- a/src/triumvirate/dataobjs.pyx
+++ b/src/triumvirate/dataobjs.pyx
@@ -153,6 +153,8 @@ cdef class Binning:
         self.bin_min, self.bin_max = bin_min, bin_max
         self.num_bins = num_bins
 
+        self.thisptr.space = self.space.encode('utf-8')
+        self.thisptr.scheme = self.scheme.encode('utf-8')
         self.thisptr.set_bins(self.bin_min, self.bin_max, self.num_bins)
 
         self.bin_edges = self.thisptr.bin_edges
@@ -179,6 +181,7 @@ cdef class Binning:
         boxsize = np.asarray(boxsize).max()
         ngrid = np.asarray(ngrid).min()
 
+        self.thisptr.space = self.space.encode('utf-8')
         self.thisptr.set_bins(boxsize, ngrid)
 
         self.bin_min, self.bin_max = self.thisptr.bin_min, self.thisptr.bin_max
-- 
2.43.0


From af3e330afa1604ed7c22acd1db904d021a06c1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 13/88] fix: record vectors of single-bin binnings without a
 parameter set

---
 src/triumvirate/fieldmesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/fieldmesh.py b/src/triumvirate/fieldmesh.py
index bc34d2e..e2403e4 100644
--- a/src/triumvirate/fieldmesh.py
+++ b/src/triumvirate/fieldmesh.py
@@ -58,7 +58,7 @@ def record_binned_vectors(binning, paramset=None, boxsize=None, ngrid=None):
         paramset = fetch_paramset_template('dict')
 
         paramset.update(range=[binning.bin_min, binning.bin_max])  # filler
-        paramset.update(num_bins=binning.num_bins)  # filler
+        paramset.update(num_bins=max(binning.num_bins, 2))  # filler
 
         paramset.update(
             degrees={'ell1': 0, 'ell2': 0, 'ELL': 0}
-- 
2.43.0


From 12624423e5c29944efee46fb81c5e537bb871418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 14/88] fix: subtract the random contribution in the
 three-point shot-noise amplitude

The header documents (and the self-triplets of the weighted fluctuation
field require) minus alpha^3 times the random sum.
---
 src/triumvirate/src/threept.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/threept.cpp b/src/triumvirate/src/threept.cpp
index a08f818..0e041bb 100644
--- a/src/triumvirate/src/threept.cpp
+++ b/src/triumvirate/src/threept.cpp
@@ -204,7 +204,7 @@ std::complex<double> calc_ylm_wgtd_shotnoise_amp_for_bispec(
 
   std::complex<double> sn_rand(sn_rand_real, sn_rand_imag);
 
-  return sn_data + std::pow(alpha, 3) * sn_rand;
+  return sn_data - std::pow(alpha, 3) * sn_rand;
 }
 
 std::complex<double> calc_ylm_wgtd_shotnoise_amp_for_bispec(
-- 
2.43.0


From 530246325ada97012c23cb9b9dfe23f893761d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 15/88] fix: stay within the data vector in full-form
 bispectrum shot noise

---
 src/triumvirate/src/threept.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/src/threept.cpp b/src/triumvirate/src/threept.cpp
index 0e041bb..7456deb 100644
--- a/src/triumvirate/src/threept.cpp
+++ b/src/triumvirate/src/threept.cpp
@@ -924,7 +924,7 @@ trv::BispecMeasurements compute_bispec(
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
                 int idx_dv = idx_row * params.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -2100,7 +2100,7 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
             std::complex<double> S_ik_j_ki_col_ = coupling * (
               stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
             );
-            for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
               int idx_dv = idx_row * params.num_bins + idx_col;
               sn_dv[idx_dv] +=
                 S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -3876,7 +3876,7 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
                 int idx_dv = idx_row * params.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
-- 
2.43.0


From 87f0c94a3a0a7461e1a6ab33e8e4f018280aab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:20 +0000
Subject: [PATCH 16/88] fix: raise C++ exceptions from the clustering
 algorithms in Python

---
 src/triumvirate/_threept.pyx | 12 ++++++------
 src/triumvirate/_twopt.pyx   | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/triumvirate/_threept.pyx b/src/triumvirate/_threept.pyx
index 0e8c39f..34cbd65 100644
--- a/src/triumvirate/_threept.pyx
+++ b/src/triumvirate/_threept.pyx
@@ -40,7 +40,7 @@ cdef extern from "include/threept.hpp":
             CppParticleCatalogue& particles,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
 
     # --------------------------------------------------------------------
@@ -55,7 +55,7 @@ cdef extern from "include/threept.hpp":
         CppParameterSet& params,
         CppBinning& kbinning,
         double norm_factor
-    )
+    ) except +
 
     ThreePCFMeasurements compute_3pcf_cpp "trv::compute_3pcf" (
         CppParticleCatalogue& catalogue_data,
@@ -65,7 +65,7 @@ cdef extern from "include/threept.hpp":
         CppParameterSet& params,
         CppBinning& rbinning,
         double norm_factor
-    )
+    ) except +
 
     BispecMeasurements compute_bispec_in_gpp_box_cpp \
         "trv::compute_bispec_in_gpp_box" (
@@ -73,7 +73,7 @@ cdef extern from "include/threept.hpp":
             CppParameterSet& params,
             CppBinning& kbinning,
             double norm_factor
-        )
+        ) except +
 
     ThreePCFMeasurements compute_3pcf_in_gpp_box_cpp \
         "trv::compute_3pcf_in_gpp_box" (
@@ -81,7 +81,7 @@ cdef extern from "include/threept.hpp":
             CppParameterSet& params,
             CppBinning& rbinning,
             double norm_factor
-        )
+        ) except +
 
     ThreePCFWindowMeasurements compute_3pcf_window_cpp \
         "trv::compute_3pcf_window" (
@@ -92,7 +92,7 @@ cdef extern from "include/threept.hpp":
             double alpha,
             double norm_factor,
             bool_t wide_angle
-        )
+        ) except +
 
     # BispecMeasurements compute_bispec_for_los_choice_cpp \
     #     "trv::compute_bispec_for_los_choice" (
diff --git a/src/triumvirate/_twopt.pyx b/src/triumvirate/_twopt.pyx
index b258a22..e9522f6 100644
--- a/src/triumvirate/_twopt.pyx
+++ b/src/triumvirate/_twopt.pyx
@@ -40,7 +40,7 @@ cdef extern from "include/twopt.hpp":
             CppParticleCatalogue& particles,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
     double calc_powspec_normalisation_from_meshes_cpp \
         "trv::calc_powspec_normalisation_from_meshes" (
@@ -48,7 +48,7 @@ cdef extern from "include/twopt.hpp":
             CppParticleCatalogue& particles_rand,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
     double calc_powspec_normalisation_from_meshes_cpp \
         "trv::calc_powspec_normalisation_from_meshes" (
@@ -59,7 +59,7 @@ cdef extern from "include/twopt.hpp":
             double padding,
             double cellsize,
             string assignment
-        )
+        ) except +
 
 
     # --------------------------------------------------------------------
@@ -74,7 +74,7 @@ cdef extern from "include/twopt.hpp":
         CppParameterSet& params,
         CppBinning& kbinning,
         double norm_factor
-    )
+    ) except +
 
     TwoPCFMeasurements compute_corrfunc_cpp "trv::compute_corrfunc" (
         CppParticleCatalogue& catalogue_data,
@@ -84,7 +84,7 @@ cdef extern from "include/twopt.hpp":
         CppParameterSet& params,
         CppBinning& rbinning,
         double norm_factor
-    )
+    ) except +
 
     PowspecMeasurements compute_powspec_in_gpp_box_cpp \
         "trv::compute_powspec_in_gpp_box" (
@@ -92,7 +92,7 @@ cdef extern from "include/twopt.hpp":
             CppParameterSet& params,
             CppBinning& kbinning,
             double norm_factor
-        )
+        ) except +
 
     TwoPCFMeasurements compute_corrfunc_in_gpp_box_cpp \
         "trv::compute_corrfunc_in_gpp_box" (
@@ -100,7 +100,7 @@ cdef extern from "include/twopt.hpp":
             CppParameterSet& params,
             CppBinning& rbinning,
             double norm_factor
-        )
+        ) except +
 
     TwoPCFWindowMeasurements compute_corrfunc_window_cpp \
         "trv::compute_corrfunc_window" (
@@ -110,7 +110,7 @@ cdef extern from "include/twopt.hpp":
             CppBinning& rbinning,
             double alpha,
             double norm_factor
-        )
+        ) except +
 
 
 def _calc_powspec_normalisation_from_particles(
-- 
2.43.0


From 23dee74b1eacca31c97e3ad8c5a41f0d913d094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 17/88] fix: keep FFTW wisdom disabled when parameters are
 validated again

---
 src/triumvirate/src/parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 466b186..eaed49a 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -944,7 +944,7 @@ int ParameterSet::validate(bool init) {
     if (this->use_fftw_wisdom == "false") {
       this->use_fftw_wisdom = "";  // transmutation
     } else
-    if (init) {
+    if (this->use_fftw_wisdom != "" && init) {
       this->use_fftw_wisdom += "/";  // transmutation
     }
   }
-- 
2.43.0


From ec292b2e4e3ded88d12351abf035371ecef44df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 18/88] fix: leave a parameter set unchanged when an update is
 rejected

---
 src/triumvirate/parameters.pyx | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 4cf4bd2..dab610c 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -12,6 +12,7 @@ Configure program parameter set.
 
 """
 import warnings
+from copy import deepcopy
 from pathlib import Path
 from pprint import pformat, pprint
 
@@ -131,7 +132,7 @@ cdef class ParameterSet:
                 self._params = yaml.load(param_file, Loader=yaml.SafeLoader)
         if param_dict is not None:
             self._source = 'dict'
-            self._params = param_dict
+            self._params = deepcopy(param_dict)
 
         self._original = True
         self._validity = False
@@ -176,9 +177,7 @@ cdef class ParameterSet:
             Parameter value.
 
         """
-        self._params.update({key: val})
-        self._parse_params()  # validate
-        self._original = False
+        self.update({key: val})
 
     def __getattr__(self, name):
         """Get parameter value as an attribute.
@@ -257,9 +256,18 @@ cdef class ParameterSet:
     def update(self, *args, **kwargs):
         """Update parameter set like :meth:`dict.update`.
 
+        If the updated parameters are invalid, the parameter set is left
+        unchanged.
+
         """
-        self._params.update(*args, **kwargs)
-        self._parse_params()  # validate
+        params_prev = deepcopy(self._params)
+        try:
+            self._params.update(*args, **kwargs)
+            self._parse_params()  # validate
+        except Exception:
+            self._params = params_prev
+            self._parse_params()
+            raise
         self._original = False
 
     def print(self):
-- 
2.43.0


From 2865eaed1271ef70c897d33ca9a165f795d11d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 19/88] fix: forget previous values of parameters that are
 unset again

---
 src/triumvirate/parameters.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index dab610c..c0e8d81 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -308,6 +308,10 @@ cdef class ParameterSet:
         C++ parameter class.
 
         """
+        # Discard previously parsed values of parameters now unset.
+        del self.thisptr
+        self.thisptr = new CppParameterSet()
+
         # ----------------------------------------------------------------
         # Parsing
         # ----------------------------------------------------------------
-- 
2.43.0


From 3cd93adbea2ebb1f00d6ef4f35f0956453529ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 20/88] fix: derive grid cell numbers from the Nyquist cutoff
 in new parameter sets

---
 src/triumvirate/parameters.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index c0e8d81..5875f41 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -490,8 +490,6 @@ cdef class ParameterSet:
         if self._params['nmesh'] == 0:
             if (cutoff_nyq_ := self._params.get('cutoff_nyq')) is not None:
                 self.thisptr.cutoff_nyq = cutoff_nyq_
-                if self._params['volume'] > 0.:
-                    self._params = _set_ngrid_from_cutoff(self._params)
             else:
                 raise InvalidParameterError(
                     "`cutoff_nyq` parameter must be set "
@@ -570,6 +568,12 @@ cdef class ParameterSet:
         if self.thisptr.validate(init) != 0:
             raise InvalidParameterError("Invalid measurement parameters.")
 
+        # Fetch grid cell numbers derived from the Nyquist cutoff.
+        if self._params['nmesh'] == 0 and self.thisptr.nmesh > 0:
+            for iax, ax in enumerate(['x', 'y', 'z']):
+                self._params['ngrid'][ax] = self.thisptr.ngrid[iax]
+            self._params['nmesh'] = self.thisptr.nmesh
+
         # Fetch validated parameters that have been derived or transmuted.
         # Transmuted I/O paths are not fetched.
         self._params['assignment_order'] = self.thisptr.assignment_order
-- 
2.43.0


From 4973450a5422f38bc7f5cd054f895b6f47208c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 21/88] fix: accept fractional progress bar intervals as
 documented

---
 src/triumvirate/parameters.pyx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 5875f41..f2122c2 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -611,11 +611,14 @@ cdef class ParameterSet:
             elif _progbar == 'false':
                 self._params['progbar'] = False
             else:
-                raise RuntimeError(
-                    "C++ instance of trv::ParameterSet did not return "
-                    "a recognised 'verbose' value "
-                    "'true', 'false' or an integer."
-                )
+                try:
+                    self._params['progbar'] = float(_progbar)
+                except ValueError:
+                    raise RuntimeError(
+                        "C++ instance of trv::ParameterSet did not return "
+                        "a recognised 'progbar' value "
+                        "'true', 'false' or a number."
+                    )
 
         self._validity = True
 
-- 
2.43.0


From 147ce7074b053fce3702530b0f6656cc3b8be725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 22/88] fix: require bin indices whatever the letter case of
 the form

---
 src/triumvirate/parameters.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index f2122c2..b32ef97 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -506,7 +506,7 @@ cdef class ParameterSet:
 
         if (form_ := self._params.get('form')) is not None:
             self.thisptr.form = form_.lower().encode('utf-8')
-            if form_ in {'off-diag', 'row'} \
+            if form_.lower() in {'off-diag', 'row'} \
                     and self._params.get('idx_bin') is None:
                 raise InvalidParameterError(
                     "`idx_bin` parameter must be set "
-- 
2.43.0


From 24d8177976a7d174d7027568f5419d4061a1d91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 23/88] fix: save parameter files that can be loaded again

---
 src/triumvirate/parameters.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index b32ef97..636fb9b 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -430,17 +430,17 @@ cdef class ParameterSet:
 
         # Attribute derived parameters.
         try:
-            self._params['volume'] = np.prod(list(
+            self._params['volume'] = float(np.prod(list(
                 self._params['boxsize'].values()
-            ))
+            )))
         except TypeError:
             self._params['volume'] = 0.
         self.thisptr.volume = self._params['volume']
 
         try:
-            self._params['nmesh'] = np.prod(list(
+            self._params['nmesh'] = int(np.prod(list(
                 self._params['ngrid'].values()
-            ))
+            )))
         except TypeError:
             self._params['nmesh'] = 0
         self.thisptr.nmesh = self._params['nmesh']
-- 
2.43.0


From e92ed79f8be02c12aae6528bb8cc4fe24c9dbe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 24/88] fix: derive unset box sizes from the particle
 coordinate spans in Python

---
 src/triumvirate/threept.py | 25 +++++++++++++++++--------
 src/triumvirate/twopt.py   | 25 +++++++++++++++++--------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index b8e2e3e..a8dc0d4 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -538,10 +538,11 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
 
     # Set up box alignment.
     if None in paramset['boxsize'].values():
-        for ax in ['x', 'y', 'z']:
-            paramset['boxsize'][ax] = \
-                catalogue_rand.bounds[ax] * paramset['expand']
-        paramset._validate()
+        paramset.update(boxsize={
+            ax: float(np.ptp(catalogue_rand.bounds[ax]))
+            * paramset['expand']
+            for ax in ['x', 'y', 'z']
+        })
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -1439,10 +1440,11 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
 
     # Set up box alignment.
     if None in paramset['boxsize'].values():
-        for ax in ['x', 'y', 'z']:
-            paramset['boxsize'][ax] = \
-                catalogue_data.bounds[ax] * paramset['expand']
-        paramset._validate()
+        paramset.update(boxsize={
+            ax: float(np.ptp(catalogue_data.bounds[ax]))
+            * paramset['expand']
+            for ax in ['x', 'y', 'z']
+        })
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -1978,6 +1980,13 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
             logger.info("Lines of sight have been initialised.")
 
     # Set up box alignment.
+    if None in paramset['boxsize'].values():
+        paramset.update(boxsize={
+            ax: float(np.ptp(catalogue_rand.bounds[ax]))
+            * paramset['expand']
+            for ax in ['x', 'y', 'z']
+        })
+
     catalogue_rand.centre(
         [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
     )
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 1d03c07..9c1f319 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -461,10 +461,11 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
 
     # Set up box alignment.
     if None in paramset['boxsize'].values():
-        for ax in ['x', 'y', 'z']:
-            paramset['boxsize'][ax] = \
-                catalogue_rand.bounds[ax] * paramset['expand']
-        paramset._validate()
+        paramset.update(boxsize={
+            ax: float(np.ptp(catalogue_rand.bounds[ax]))
+            * paramset['expand']
+            for ax in ['x', 'y', 'z']
+        })
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -995,10 +996,11 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
 
     # Set up box alignment.
     if None in paramset['boxsize'].values():
-        for ax in ['x', 'y', 'z']:
-            paramset['boxsize'][ax] = \
-                catalogue_data.bounds[ax] * paramset['expand']
-        paramset._validate()
+        paramset.update(boxsize={
+            ax: float(np.ptp(catalogue_data.bounds[ax]))
+            * paramset['expand']
+            for ax in ['x', 'y', 'z']
+        })
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -1462,6 +1464,13 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
             logger.info("Lines of sight have been initialised.")
 
     # Set up box alignment.
+    if None in paramset['boxsize'].values():
+        paramset.update(boxsize={
+            ax: float(np.ptp(catalogue_rand.bounds[ax]))
+            * paramset['expand']
+            for ax in ['x', 'y', 'z']
+        })
+
     catalogue_rand.centre(
         [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
     )
-- 
2.43.0


From da9b838a3d34f1cadb0ca7d122ffdd32bb0121df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 25/88] fix: copy the shape of three-point measurements with a
 parameter set

---
 src/triumvirate/src/parameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index eaed49a..7d3f525 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -69,6 +69,7 @@ ParameterSet::ParameterSet(const ParameterSet& other) {
   this->j_wa = other.j_wa;
   this->form = other.form;
   this->norm_convention = other.norm_convention;
+  this->shape = other.shape;
   this->binning = other.binning;
   this->bin_min = other.bin_min;
   this->bin_max = other.bin_max;
-- 
2.43.0


From 295c3ab1422cd137b95f3a3bff759bc3a6bc4813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:27 +0000
Subject: [PATCH 26/88] fix: match parameter names in full and treat absent
 sizes as unset in parameter files

---
 src/triumvirate/src/parameters.cpp | 101 ++++++++++++++++-------------
 1 file changed, 56 insertions(+), 45 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 7d3f525..7dabd93 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -114,8 +114,8 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   char catalogue_dataset_[1024] = "";
   char output_tag_[1024] = "";
 
-  double boxsize_x, boxsize_y, boxsize_z;
-  int ngrid_x, ngrid_y, ngrid_z;
+  double boxsize_x = 0., boxsize_y = 0., boxsize_z = 0.;
+  int ngrid_x = 0, ngrid_y = 0, ngrid_z = 0;
 
   char alignment_[16] = "";
   char padscale_[16] = "";
@@ -138,7 +138,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   // ---------------------------------------------------------------------
 
   std::string line_str;
-  char dummy_str[1024], dummy_equal[1024];
+  char dummy_key[1024], dummy_str[1024], dummy_equal[1024];
   while (std::getline(fin, line_str)) {
     // Check if the line is a parameter assignment.
     if (line_str.find("#") == 0) {
@@ -147,7 +147,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     if (
       std::sscanf(
         line_str.data(), "%1023s %1023s %1023s",
-        dummy_str, dummy_equal, dummy_str
+        dummy_key, dummy_equal, dummy_str
       ) != 3
     ) {
       continue;
@@ -156,11 +156,14 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
       continue;
     }  // skip non-assignment lines
 
+    // Match parameter names in full as they may contain one another.
+    const std::string key_str = dummy_key;
+
     // Define convenience function for scanning string parameters.
-    auto scan_par_str = [line_str, dummy_str, dummy_equal](
-      const char* par_name, const char* fmt, const char* par_value
+    auto scan_par_str = [&line_str, &key_str, &dummy_str, &dummy_equal](
+      const char* par_name, const char* fmt, char* par_value
     ) {
-      if (line_str.find(par_name) != std::string::npos) {
+      if (key_str == par_name) {
         std::sscanf(
           line_str.data(), fmt, dummy_str, dummy_equal, par_value
         );
@@ -169,140 +172,148 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
 
     // -- I/O ------------------------------------------------------------
 
-    scan_par_str("catalogue_dir", "%s %s %s", catalogue_dir_);
-    scan_par_str("measurement_dir", "%s %s %s", measurement_dir_);
-    scan_par_str("data_catalogue_file", "%s %s %s", data_catalogue_file_);
-    scan_par_str("rand_catalogue_file", "%s %s %s", rand_catalogue_file_);
-    scan_par_str("catalogue_columns", "%s %s %s", catalogue_columns_);
-    scan_par_str("catalogue_dataset", "%s %s %s", catalogue_dataset_);
-    scan_par_str("output_tag", "%s %s %s", output_tag_);
+    scan_par_str("catalogue_dir", "%1023s %1023s %1023s", catalogue_dir_);
+    scan_par_str("measurement_dir", "%1023s %1023s %1023s", measurement_dir_);
+    scan_par_str(
+      "data_catalogue_file", "%1023s %1023s %262143s", data_catalogue_file_
+    );
+    scan_par_str(
+      "rand_catalogue_file", "%1023s %1023s %262143s", rand_catalogue_file_
+    );
+    scan_par_str(
+      "catalogue_columns", "%1023s %1023s %1023s", catalogue_columns_
+    );
+    scan_par_str(
+      "catalogue_dataset", "%1023s %1023s %1023s", catalogue_dataset_
+    );
+    scan_par_str("output_tag", "%1023s %1023s %1023s", output_tag_);
 
     // -- Mesh sampling --------------------------------------------------
 
-    if (line_str.find("boxsize_x") != std::string::npos) {
+    if (key_str == "boxsize_x") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &boxsize_x
       );
     }
-    if (line_str.find("boxsize_y") != std::string::npos) {
+    if (key_str == "boxsize_y") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &boxsize_y
       );
     }
-    if (line_str.find("boxsize_z") != std::string::npos) {
+    if (key_str == "boxsize_z") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &boxsize_z
       );
     }
 
-    if (line_str.find("ngrid_x") != std::string::npos) {
+    if (key_str == "ngrid_x") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &ngrid_x
       );
     }
-    if (line_str.find("ngrid_y") != std::string::npos) {
+    if (key_str == "ngrid_y") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &ngrid_y
       );
     }
-    if (line_str.find("ngrid_z") != std::string::npos) {
+    if (key_str == "ngrid_z") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d", dummy_str, dummy_equal, &ngrid_z
       );
     }
 
-    if (line_str.find("expand") != std::string::npos) {
+    if (key_str == "expand") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->expand
       );
     }
 
-    scan_par_str("alignment", "%1023s %1023s %1023s", alignment_);
-    scan_par_str("padscale", "%1023s %1023s %1023s", padscale_);
+    scan_par_str("alignment", "%1023s %1023s %15s", alignment_);
+    scan_par_str("padscale", "%1023s %1023s %15s", padscale_);
 
-    if (line_str.find("padfactor") != std::string::npos) {
+    if (key_str == "padfactor") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->padfactor
       );
     }
 
-    scan_par_str("assignment", "%1023s %1023s %1023s", assignment_);
-    scan_par_str("interlace", "%1023s %1023s %1023s", interlace_);
+    scan_par_str("assignment", "%1023s %1023s %15s", assignment_);
+    scan_par_str("interlace", "%1023s %1023s %15s", interlace_);
 
     // -- Measurement ----------------------------------------------------
 
-    scan_par_str("catalogue_type", "%1023s %1023s %1023s", catalogue_type_);
-    scan_par_str("statistic_type", "%1023s %1023s %1023s", statistic_type_);
-    scan_par_str("form", "%1023s %1023s %1023s", form_);
-    scan_par_str("norm_convention", "%1023s %1023s %1023s", norm_convention_);
-    scan_par_str("binning", "%1023s %1023s %1023s", binning_);
+    scan_par_str("catalogue_type", "%1023s %1023s %15s", catalogue_type_);
+    scan_par_str("statistic_type", "%1023s %1023s %15s", statistic_type_);
+    scan_par_str("form", "%1023s %1023s %15s", form_);
+    scan_par_str("norm_convention", "%1023s %1023s %15s", norm_convention_);
+    scan_par_str("binning", "%1023s %1023s %15s", binning_);
 
-    if (line_str.find("ell1") != std::string::npos) {
+    if (key_str == "ell1") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->ell1
       );
     }
-    if (line_str.find("ell2") != std::string::npos) {
+    if (key_str == "ell2") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->ell2
       );
     }
-    if (line_str.find("ELL") != std::string::npos) {
+    if (key_str == "ELL") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->ELL
       );
     }
 
-    if (line_str.find("i_wa") != std::string::npos) {
+    if (key_str == "i_wa") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->i_wa
       );
     }
-    if (line_str.find("j_wa") != std::string::npos) {
+    if (key_str == "j_wa") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->j_wa
       );
     }
 
-    if (line_str.find("bin_min") != std::string::npos) {
+    if (key_str == "bin_min") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->bin_min
       );
     }
-    if (line_str.find("bin_max") != std::string::npos) {
+    if (key_str == "bin_max") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->bin_max
       );
     }
 
-    if (line_str.find("num_bins") != std::string::npos) {
+    if (key_str == "num_bins") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->num_bins
       );
     }
-    if (line_str.find("idx_bin") != std::string::npos) {
+    if (key_str == "idx_bin") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->idx_bin
       );
     }
 
-    if (line_str.find("cutoff_nyq") != std::string::npos) {
+    if (key_str == "cutoff_nyq") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->cutoff_nyq
@@ -311,14 +322,14 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
 
     // -- Misc -------------------------------------------------------------
 
-    scan_par_str("fftw_scheme", "%1023s %1023s %1023s", fftw_scheme_);
+    scan_par_str("fftw_scheme", "%1023s %1023s %15s", fftw_scheme_);
     scan_par_str("use_fftw_wisdom", "%1023s %1023s %1023s", use_fftw_wisdom_);
     scan_par_str(
       "save_binned_vectors", "%1023s %1023s %1023s", save_binned_vectors_
     );
-    scan_par_str("progbar", "%1023s %1023s %1023s", progbar_);
+    scan_par_str("progbar", "%1023s %1023s %15s", progbar_);
 
-    if (line_str.find("verbose") != std::string::npos) {
+    if (key_str == "verbose") {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->verbose
@@ -389,7 +400,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   this->ngrid[2] = ngrid_z;
 
   this->volume = boxsize_x * boxsize_y * boxsize_z;
-  this->nmesh = ngrid_x * ngrid_y * ngrid_z;
+  this->nmesh = static_cast<long long>(ngrid_x) * ngrid_y * ngrid_z;
 
   // ---------------------------------------------------------------------
   // Debugging mode
-- 
2.43.0


From 344791cf214c0a8bca995f8fb345506c42411ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:27 +0000
Subject: [PATCH 27/88] fix: reject a zero Nyquist cutoff for unset grid
 numbers instead of recursing endlessly

---
 src/triumvirate/src/parameters.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 7dabd93..d3d8474 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1086,15 +1086,15 @@ int ParameterSet::validate(bool init) {
         this->nmesh
       );
     }
-    if (this->cutoff_nyq < 0.) {
+    if (this->cutoff_nyq <= 0.) {
       if (trvs::currTask == 0) {
         trvs::logger.error(
-          "The Nyquist cutoff must be non-negative: `cutoff_nyq` = %lg",
+          "The Nyquist cutoff must be positive: `cutoff_nyq` = %lg",
           this->cutoff_nyq
         );
       }
       throw trvs::InvalidParameterError(
-        "The Nyquist cutoff must be non-negative: `cutoff_nyq` = %lg",
+        "The Nyquist cutoff must be positive: `cutoff_nyq` = %lg",
         this->cutoff_nyq
       );
     }
-- 
2.43.0


From 41087e83f69185c0d3fbe19e80a9a71355141b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:27 +0000
Subject: [PATCH 28/88] fix: defer the grid padding check until grid numbers
 are set

---
 src/triumvirate/src/parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index d3d8474..8f7cd99 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1132,7 +1132,7 @@ int ParameterSet::validate(bool init) {
         this->padscale.c_str(), this->padfactor
       );
     }
-    if (this->padscale == "grid" && (
+    if (this->padscale == "grid" && this->nmesh > 0 && (
         this->padfactor >= this->ngrid[0]
         || this->padfactor >= this->ngrid[1]
         || this->padfactor >= this->ngrid[2]
-- 
2.43.0


From 57f343dccc95bdf43f4d975ccad03be99789189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:27 +0000
Subject: [PATCH 29/88] fix: reject unknown catalogue and statistic types from
 Python too

---
 src/triumvirate/src/parameters.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 8f7cd99..bb8d2ed 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -620,8 +620,11 @@ int ParameterSet::validate(bool init) {
   } else
   if (this->catalogue_type == "none") {
     // Nothing should happen.
-  } else {
-#ifndef TRV_EXTCALL
+  } else
+#ifdef TRV_EXTCALL
+  if (this->catalogue_type != "")  // may be set later
+#endif  // TRV_EXTCALL
+  {
     if (trvs::currTask == 0) {
       trvs::logger.error(
         "Catalogue type must be 'survey', 'random', 'sim' or 'none: "
@@ -634,7 +637,6 @@ int ParameterSet::validate(bool init) {
       "`catalogue_type` = '%s'.",
       this->catalogue_type.c_str()
     );
-#endif  // !TRV_EXTCALL
   }
   this->data_catalogue_file = trvs::join_strings(
     this->data_catalogue_files, trvs::fn_delimiter
@@ -823,8 +825,11 @@ int ParameterSet::validate(bool init) {
   } else
   if (this->statistic_type == "pairs") {
     this->npoint = "none"; this->space = "config";  // derivation
-  } else {
-#ifndef TRV_EXTCALL
+  } else
+#ifdef TRV_EXTCALL
+  if (this->statistic_type != "")  // may be set later
+#endif  // TRV_EXTCALL
+  {
     if (trvs::currTask == 0) {
       trvs::logger.error(
         "Statistic type is not recognised: `statistic_type` = '%s'.",
@@ -835,7 +840,6 @@ int ParameterSet::validate(bool init) {
       "Statistic type is not recognised: `statistic_type` = '%s'.",
       this->statistic_type.c_str()
     );
-#endif  // !TRV_EXTCALL
   }
   if (!(
     this->form == "full"
-- 
2.43.0


From 7ce960a9ef73d58dd72845d1a61a2d8219dcad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 30/88] fix: keep FFTW wisdom paths coherent when parameters
 are overridden or validated again

---
 src/triumvirate/src/parameters.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index bb8d2ed..e2067ed 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -960,7 +960,7 @@ int ParameterSet::validate(bool init) {
     if (this->use_fftw_wisdom == "false") {
       this->use_fftw_wisdom = "";  // transmutation
     } else
-    if (this->use_fftw_wisdom != "" && init) {
+    if (this->use_fftw_wisdom != "" && this->use_fftw_wisdom.back() != '/') {
       this->use_fftw_wisdom += "/";  // transmutation
     }
   }
@@ -1017,6 +1017,9 @@ int ParameterSet::validate(bool init) {
 
     this->fftw_wisdom_file_f = fftw_wisdom_file_f_;
     this->fftw_wisdom_file_b = fftw_wisdom_file_b_;
+  } else {
+    this->fftw_wisdom_file_f = "";
+    this->fftw_wisdom_file_b = "";
   }
 
   char default_bvec_sfilepath[1024];
-- 
2.43.0


From 369be932fbb1791c9027c058a89922c5128e1e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 31/88] fix: reject mixed-mesh normalisation without a pair of
 catalogues

---
 src/triumvirate/src/parameters.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index e2067ed..ac6a8eb 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -897,6 +897,23 @@ int ParameterSet::validate(bool init) {
       this->npoint.c_str()
     );
   }
+  if (
+    this->norm_convention == "mesh-mixed"
+    && this->catalogue_type != "survey" && this->catalogue_type != ""
+  ) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "Normalisation convention 'mesh-mixed' requires 'survey' "
+        "catalogues: `catalogue_type` = '%s'.",
+        this->catalogue_type.c_str()
+      );
+    }
+    throw trvs::InvalidParameterError(
+      "Normalisation convention 'mesh-mixed' requires 'survey' "
+      "catalogues: `catalogue_type` = '%s'.",
+      this->catalogue_type.c_str()
+    );
+  }
   if (!(
     this->binning == "lin"
     || this->binning == "log"
-- 
2.43.0


From e6cd56cfc261f6c51f75587326152f367b92e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:59 +0000
Subject: [PATCH 32/88] fix: write used-parameter files that read back as the
 same parameters

---
 src/triumvirate/src/parameters.cpp | 66 ++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index ac6a8eb..9978110 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -482,7 +482,7 @@ int ParameterSet::validate(bool init) {
   // Any duplicate '/' has no effect.
   if (
     this->catalogue_dir.find_first_not_of(" \t\n\r\v\f") != std::string::npos
-    && init
+    && init && this->catalogue_dir.back() != '/'
   ) {
     this->catalogue_dir += "/";  // transmutation
   }
@@ -491,7 +491,7 @@ int ParameterSet::validate(bool init) {
   ) {
     this->measurement_dir = "./";  // transmutation
   } else
-  if (init) {
+  if (init && this->measurement_dir.back() != '/') {
     this->measurement_dir += "/";  // transmutation
   }
   trvs::expand_envar_in_path(this->catalogue_dir);
@@ -1330,33 +1330,64 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   auto print_par_int = [ofileptr](const char* fmt, int par_val) {
     std::fprintf(ofileptr, fmt, par_val);
   };
-  auto print_par_double = [ofileptr](const char* fmt, double par_val) {
-    std::fprintf(ofileptr, fmt, par_val);
+  // Print in the given format unless that loses precision.
+  auto print_par_double = [ofileptr](
+    const char* name, const char* fmt, double par_val
+  ) {
+    char par_str[512];
+    std::snprintf(par_str, sizeof(par_str), fmt, par_val);
+    if (std::strtod(par_str, nullptr) != par_val) {
+      std::snprintf(par_str, sizeof(par_str), "%.17g", par_val);
+    }
+    std::fprintf(ofileptr, "%s = %s\n", name, par_str);
+  };
+  // Print paths relative to the directory they are read relative to.
+  auto rel_path = [](const std::string& path, const std::string& dir) {
+    return (
+      dir != "" && path.rfind(dir, 0) == 0
+      && path.find_first_not_of("/", dir.length()) == dir.length()
+    ) ? path.substr(dir.length()) : path;
+  };
+  auto rel_paths = [&rel_path](
+    const std::vector<std::string>& paths, const std::string& dir
+  ) {
+    std::vector<std::string> paths_;
+    for (const std::string& path : paths) {
+      paths_.push_back(rel_path(path, dir));
+    }
+    return trvs::join_strings(paths_, trvs::fn_delimiter);
   };
 
   // Print parameters to file.
   print_par_str("catalogue_dir = %s\n", this->catalogue_dir);
   print_par_str("measurement_dir = %s\n", this->measurement_dir);
-  print_par_str("data_catalogue_file = %s\n", this->data_catalogue_file);
-  print_par_str("rand_catalogue_file = %s\n", this->rand_catalogue_file);
+  print_par_str(
+    "data_catalogue_file = %s\n",
+    rel_paths(this->data_catalogue_files, this->catalogue_dir)
+  );
+  print_par_str(
+    "rand_catalogue_file = %s\n",
+    rel_paths(this->rand_catalogue_files, this->catalogue_dir)
+  );
   print_par_str("catalogue_columns = %s\n", this->catalogue_columns);
   print_par_str("catalogue_dataset = %s\n", this->catalogue_dataset);
   print_par_str("output_tag = %s\n", this->output_tag);
 
-  print_par_double("boxsize_x = %.3f\n", this->boxsize[0]);
-  print_par_double("boxsize_y = %.3f\n", this->boxsize[1]);
-  print_par_double("boxsize_z = %.3f\n", this->boxsize[2]);
+  print_par_double("boxsize_x", "%.3f", this->boxsize[0]);
+  print_par_double("boxsize_y", "%.3f", this->boxsize[1]);
+  print_par_double("boxsize_z", "%.3f", this->boxsize[2]);
   print_par_int("ngrid_x = %d\n", this->ngrid[0]);
   print_par_int("ngrid_y = %d\n", this->ngrid[1]);
   print_par_int("ngrid_z = %d\n", this->ngrid[2]);
 
-  print_par_double("volume = %.6e\n", this->volume);
-  print_par_int("nmesh = %lld\n", this->nmesh);
+  print_par_double("volume", "%.6e", this->volume);
+  std::fprintf(ofileptr, "nmesh = %lld\n", this->nmesh);
 
-  print_par_double("expand = %.4f\n", this->expand);
+  print_par_double("cutoff_nyq", "%.4f", this->cutoff_nyq);
+  print_par_double("expand", "%.4f", this->expand);
   print_par_str("alignment = %s\n", this->alignment);
   print_par_str("padscale = %s\n", this->padscale);
-  print_par_double("padfactor = %.4f\n", this->padfactor);
+  print_par_double("padfactor", "%.4f", this->padfactor);
 
   print_par_str("assignment = %s\n", this->assignment);
   print_par_str("interlace = %s\n", this->interlace);
@@ -1379,8 +1410,8 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   print_par_str("binning = %s\n", this->binning);
   print_par_str("shape = %s\n", this->shape);
 
-  print_par_double("bin_min = %.4f\n", this->bin_min);
-  print_par_double("bin_max = %.4f\n", this->bin_max);
+  print_par_double("bin_min", "%.4f", this->bin_min);
+  print_par_double("bin_max", "%.4f", this->bin_max);
   print_par_int("num_bins = %d\n", this->num_bins);
   print_par_int("idx_bin = %d\n", this->idx_bin);
 
@@ -1388,7 +1419,10 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   print_par_str("use_fftw_wisdom = %s\n", this->use_fftw_wisdom.c_str());
   print_par_str("fftw_wisdom_file_f = %s\n", this->fftw_wisdom_file_f.c_str());
   print_par_str("fftw_wisdom_file_b = %s\n", this->fftw_wisdom_file_b.c_str());
-  print_par_str("save_binned_vectors = %s\n", this->save_binned_vectors);
+  print_par_str(
+    "save_binned_vectors = %s\n",
+    rel_path(this->save_binned_vectors, this->measurement_dir)
+  );
   print_par_str("progbar = %s\n", this->progbar);
   print_par_int("verbose = %d\n", this->verbose);
   print_par_int("fftw_planner_flag = %d\n", this->fftw_planner_flag);
-- 
2.43.0


From f2b8f7ae3b8ed60bac31ef277917f1587c058c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:34 +0000
Subject: [PATCH 33/88] fix: continue vanishing endpoints as zeros in
 log-linear extrapolation

---
 src/triumvirate/_arrayops.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/_arrayops.py b/src/triumvirate/_arrayops.py
index 5eb3eeb..306932f 100644
--- a/src/triumvirate/_arrayops.py
+++ b/src/triumvirate/_arrayops.py
@@ -322,8 +322,12 @@ def extrap_loglin(a, n_ext):
     """
     a = _check_1d_array(a, check_epsign=True)
 
-    a_l = a[0] * (a[0] / a[1]) ** np.arange(n_ext, 0, -1)
-    a_r = a[-1] * (a[-1] / a[-2]) ** np.arange(1, n_ext + 1, 1)
+    # A vanishing endpoint is continued as zero.
+    ratio_l = a[0] / a[1] if a[0] != 0. else 0.
+    ratio_r = a[-1] / a[-2] if a[-1] != 0. else 0.
+
+    a_l = a[0] * ratio_l ** np.arange(n_ext, 0, -1)
+    a_r = a[-1] * ratio_r ** np.arange(1, n_ext + 1, 1)
     a_out = np.concatenate([a_l, a, a_r])
 
     return a_out
@@ -530,8 +534,19 @@ def _extrap2d_row_loglin(a, ncol_ext):
         Extrapolated 2-d array.
 
     """
-    a_l = a[:, [0]] * (a[:, [0]]/a[:, [1]]) ** np.arange(ncol_ext, 0, -1)
-    a_r = a[:, [-1]] * (a[:, [-1]]/a[:, [-2]]) ** np.arange(1, ncol_ext + 1, 1)
+    # Vanishing endpoints are continued as zeros.
+    a = np.asarray(a, dtype=float)
+    ratio_l = np.divide(
+        a[:, [0]], a[:, [1]],
+        out=np.zeros_like(a[:, [0]]), where=(a[:, [0]] != 0.)
+    )
+    ratio_r = np.divide(
+        a[:, [-1]], a[:, [-2]],
+        out=np.zeros_like(a[:, [-1]]), where=(a[:, [-1]] != 0.)
+    )
+
+    a_l = a[:, [0]] * ratio_l ** np.arange(ncol_ext, 0, -1)
+    a_r = a[:, [-1]] * ratio_r ** np.arange(1, ncol_ext + 1, 1)
 
     a_out = np.c_[a_l, a, a_r]
 
-- 
2.43.0


From 9661c0d38d9bd18ee435f622ed633c5ad0e50e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:34 +0000
Subject: [PATCH 34/88] fix: pad rows and columns by their own numbers of extra
 elements

---
 src/triumvirate/_arrayops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/_arrayops.py b/src/triumvirate/_arrayops.py
index 306932f..4c1c48a 100644
--- a/src/triumvirate/_arrayops.py
+++ b/src/triumvirate/_arrayops.py
@@ -652,15 +652,15 @@ def extrap2d_pad(a, n_ext, crow_lower, crow_upper, ccol_lower, ccol_upper):
     nrow_ext, ncol_ext = \
         n_ext if isinstance(n_ext, Sequence) else (n_ext, n_ext)
 
-    a_l = np.tile(crow_lower, (nrow_ext, 1)).T
-    a_r = np.tile(crow_upper, (nrow_ext, 1)).T
+    a_l = np.tile(crow_lower, (ncol_ext, 1)).T
+    a_r = np.tile(crow_upper, (ncol_ext, 1)).T
     a_ = np.c_[a_l, a, a_r]
 
     ccol_lower = np.concatenate([a_l[0], ccol_lower, a_r[0]])
     ccol_upper = np.concatenate([a_l[-1], ccol_upper, a_r[-1]])
 
-    a__u = np.tile(ccol_lower, (ncol_ext, 1))
-    a__d = np.tile(ccol_upper, (ncol_ext, 1))
+    a__u = np.tile(ccol_lower, (nrow_ext, 1))
+    a__d = np.tile(ccol_upper, (nrow_ext, 1))
     a_out = np.r_[a__u, a_, a__d]
 
     return a_out
-- 
2.43.0


From 451190afbf4519c0e5c3d6ef9b43ebd0e97f9434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 35/88] fix: compare all degrees when ordering multipoles

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 246bfe9..b42f6ca 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -272,7 +272,7 @@ class Multipole:
         if self.index[-1] > other.index[-1]:
             return False
 
-        for idx, idx_other in zip(self.index[:-2], other.index[:-2]):
+        for idx, idx_other in zip(self.index[:-1], other.index[:-1]):
             if idx < idx_other:
                 return True
             if idx > idx_other:
@@ -288,7 +288,7 @@ class Multipole:
         if self.index[-1] < other.index[-1]:
             return False
 
-        for idx, idx_other in zip(self.index[:-2], other.index[:-2]):
+        for idx, idx_other in zip(self.index[:-1], other.index[:-1]):
             if idx > idx_other:
                 return True
             if idx < idx_other:
-- 
2.43.0


From 2e9c86cb3decb7409d6c26d0550e9dc9dcf28ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 36/88] fix: keep log-linear resampling points within the
 sampled range

---
 src/triumvirate/transforms.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index de5d496..3bc1fa4 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -574,9 +574,8 @@ def resample_lglin(sampts, samples, size=None, spline=3):
         if sampts.ndim != 1:
             raise ValueError("Sample points must be 1-d.")
 
-        resampts = np.logspace(
-            np.log10(sampts[0]), np.log10(sampts[-1]), size or len(sampts),
-            base=10
+        resampts = np.geomspace(
+            sampts[0], sampts[-1], size or len(sampts)
         )
         resamples = InterpolatedUnivariateSpline(
             sampts, samples, k=spline, ext='raise'
@@ -596,13 +595,13 @@ def resample_lglin(sampts, samples, size=None, spline=3):
         size = size if isinstance(size, Sequence) else (size, size)
 
         resampts = (
-            np.logspace(
-                np.log10(sampts[0][0]), np.log10(sampts[0][-1]),
-                size[0] or len(sampts[0]), base=10
+            np.geomspace(
+                sampts[0][0], sampts[0][-1],
+                size[0] or len(sampts[0])
             ),
-            np.logspace(
-                np.log10(sampts[-1][0]), np.log10(sampts[-1][-1]),
-                size[-1] or len(sampts[-1]), base=10
+            np.geomspace(
+                sampts[-1][0], sampts[-1][-1],
+                size[-1] or len(sampts[-1])
             )
         )
         resamples = RectBivariateSpline(
-- 
2.43.0


From 6de5c5a44d23b25a620319f8ba1a63f76b3195bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 37/88] fix: resample arrays sampled differently in the two
 dimensions

---
 src/triumvirate/transforms.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index 3bc1fa4..f380d36 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -567,8 +567,12 @@ def resample_lglin(sampts, samples, size=None, spline=3):
     Resampling is accurate: True
 
     """
-    sampts = np.squeeze(sampts)
     samples = np.squeeze(samples)
+    if samples.ndim == 2 and len(sampts) == 2 and np.ndim(sampts[0]) > 0:
+        # The two dimensions may be sampled differently.
+        sampts = [np.squeeze(sampts_) for sampts_ in sampts]
+    else:
+        sampts = np.squeeze(sampts)
 
     if samples.ndim == 1:
         if sampts.ndim != 1:
@@ -584,7 +588,7 @@ def resample_lglin(sampts, samples, size=None, spline=3):
         return resampts, resamples
 
     if samples.ndim == 2:
-        if sampts.ndim == 1:
+        if np.ndim(sampts[0]) == 0:
             sampts = np.array([sampts, sampts])
         if len(sampts) != 2 or sampts[0].ndim != 1 or sampts[-1].ndim != 1:
             raise ValueError(
@@ -657,8 +661,12 @@ def resample_lin(sampts, samples, size=None, spline=3):
     Resampling is accurate: True
 
     """
-    sampts = np.squeeze(sampts)
     samples = np.squeeze(samples)
+    if samples.ndim == 2 and len(sampts) == 2 and np.ndim(sampts[0]) > 0:
+        # The two dimensions may be sampled differently.
+        sampts = [np.squeeze(sampts_) for sampts_ in sampts]
+    else:
+        sampts = np.squeeze(sampts)
 
     if samples.ndim == 1:
         if sampts.ndim != 1:
@@ -674,7 +682,7 @@ def resample_lin(sampts, samples, size=None, spline=3):
         return resampts, resamples
 
     if samples.ndim == 2:
-        if sampts.ndim == 1:
+        if np.ndim(sampts[0]) == 0:
             sampts = np.array([sampts, sampts])
         if len(sampts) != 2 or sampts[0].ndim != 1 or sampts[-1].ndim != 1:
             raise ValueError(
-- 
2.43.0


From 35164d5635351eaac11ac3387a31948aad0d9379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 38/88] fix: keep the number of window sample points when
 resampling by default

---
 src/triumvirate/winconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index b42f6ca..0a42a4b 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -937,7 +937,7 @@ class ThreePointWindow:
         except (MixedSignError, SpacingError,):
             if make_loglin:
                 self.resample(
-                    size=make_loglin if isinstance(make_loglin, int) else None
+                    size=None if make_loglin is True else int(make_loglin)
                 )
             else:
                 warnings.warn(
-- 
2.43.0


From d834793bf3a3c2a931452a31a4551f451b9eded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 39/88] fix: key window sample points loaded from a dictionary
 by multipole

---
 src/triumvirate/winconv.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 0a42a4b..680acaa 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1049,8 +1049,6 @@ class ThreePointWindow:
         """
         self = cls.__new__(cls)
 
-        self.r = dict_obj['r']
-
         self.Q = {}
         self.Q_diag = {}
         multipoles = []
@@ -1062,6 +1060,15 @@ class ThreePointWindow:
 
         self.multipoles = sorted(multipoles)
 
+        rQ_in = dict_obj['r']
+        if isinstance(rQ_in, dict):
+            self.r = {
+                Multipole(multipole_in): rQ_pole_in
+                for multipole_in, rQ_pole_in in rQ_in.items()
+            }
+        else:
+            self.r = {multipole: rQ_in for multipole in self.multipoles}
+
         try:
             self.sources = dict_obj['sources']
         except KeyError:
-- 
2.43.0


From 3d818ddf09c9f2fb49c12b95115077d622b3acb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 40/88] fix: restore the lists of multipoles and sources of
 saved windows

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 680acaa..546fdd0 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1101,8 +1101,8 @@ class ThreePointWindow:
         self.Q = win_obj['Q'].item()
         self.Q_diag = win_obj['Q_diag'].item()
 
-        self.multipoles = win_obj['multipoles']
-        self.sources = win_obj['sources']
+        self.multipoles = win_obj['multipoles'].tolist()
+        self.sources = win_obj['sources'].tolist()
 
         return self
 
-- 
2.43.0


From c9349e78290b968dfecda1cb5bf58d933b79f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 41/88] fix: subselect windows by ranges per multipole and
 without changing them in place

---
 src/triumvirate/winconv.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 546fdd0..b4a1223 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1151,27 +1151,23 @@ class ThreePointWindow:
             for the subselected range of separation sample points.
 
         """
-        if rrange is None:
+        def _in_range(rQ_, rmin, rmax):  # numpydoc ignore=GL08
+            rmin = 0. if rmin is None else rmin
+            rmax = np.inf if rmax is None else rmax
+            return np.logical_and(rmin <= rQ_, rQ_ <= rmax)
+
+        if rrange is None or isinstance(rrange, dict):
             select_range = {
                 multipole: np.full_like(self.r[multipole], True, dtype=bool)
                 for multipole in self.multipoles
             }
-        elif isinstance(rrange, dict):
-            select_range = {
-                Multipole(multipole): np.logical_and(
-                    rmin <= self.r[multipole], self.r[multipole] <= rmax
+            for key, val in (rrange or {}).items():
+                select_range[Multipole(key)] = _in_range(
+                    self.r[Multipole(key)], *val
                 )
-                for multipole, (rmin, rmax) in rrange.items()
-            }
         else:
-            rmin, rmax = rrange
-            rmin = rmin or 0.
-            rmax = rmax or np.inf
             select_range = {
-                multipole: np.logical_and(
-                    rmin <= self.r[multipole],
-                    self.r[multipole] <= rmax
-                )
+                multipole: _in_range(self.r[multipole], *rrange)
                 for multipole in self.multipoles
             }
 
@@ -1189,7 +1185,7 @@ class ThreePointWindow:
                 select_idx[Multipole(key)] = np.full_like(
                     self.r[Multipole(key)], False, dtype=bool
                 )
-                select_idx[slice(*val)] = True
+                select_idx[Multipole(key)][slice(*val)] = True
         else:
             select_idx = {
                 multipole: np.full_like(self.r[multipole], False, dtype=bool)
@@ -1207,7 +1203,10 @@ class ThreePointWindow:
 
         if not inplace:
             instance = self.__class__.load_from_dict({
-                'r': self.r[multipole][selector[multipole]],
+                'r': {
+                    multipole: self.r[multipole][selector[multipole]]
+                    for multipole in self.multipoles
+                },
                 'Q': {
                     multipole: Q_in_[
                         selector[multipole], :
@@ -1217,7 +1216,7 @@ class ThreePointWindow:
                     for multipole, Q_in_ in self.Q.items()
                 }
             })
-            instance.sources = self.sources
+            instance.sources = list(self.sources)
             return instance
 
         self.r = {
-- 
2.43.0


From 5b3e6da313b096d5a0a9a4c70cbf6fef330a28ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 42/88] fix: do not overwrite the samples passed to spherical
 Bessel transforms

---
 src/triumvirate/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index f380d36..d83c6dd 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -197,7 +197,8 @@ class SphericalBesselTransform:
         if self._extrap_layer == 'outer':
             pre_samples = self._perform_extrap(pre_samples)
 
-        pre_samples *= self._pre_sampts ** (3./2)
+        # Do not modify the input samples in place.
+        pre_samples = np.asarray(pre_samples) * self._pre_sampts ** (3./2)
 
         post_sampts, post_samples = self._fbht.transform(pre_samples)
 
-- 
2.43.0


From d53b819e1f47d201d1257cb1b2cfa6323a15425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 43/88] fix: pivot values of double spherical Bessel transforms
 could not be read

---
 src/triumvirate/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index d83c6dd..707dbd5 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -414,7 +414,7 @@ class DoubleSphericalBesselTransform:
         tuple of float
 
         """  # numpydoc ignore=RT03
-        return (self._fbsjt[0]._pivot, self._fbsjt[1]._pivot)
+        return (self._fbsjt[0].pivot, self._fbsjt[1].pivot)
 
     def transform(self, pre_samples):
         """Transform samples at initialised sample points.
-- 
2.43.0


From 01165fea935f1f851837f65b785ac7382443033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 44/88] fix: samples of the wrong size overran the buffers of
 FFTLog transforms

---
 src/triumvirate/_fftlog.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/_fftlog.pyx b/src/triumvirate/_fftlog.pyx
index ffbecb6..bacccbd 100644
--- a/src/triumvirate/_fftlog.pyx
+++ b/src/triumvirate/_fftlog.pyx
@@ -120,8 +120,13 @@ cdef class HankelTransform:
             Post-transform sample points and samples.
 
         """
-        fx_ = fx.astype(np.complex128)
-        gy_ = np.zeros_like(fx, dtype=np.complex128)
+        fx_ = np.ascontiguousarray(fx, dtype=np.complex128)
+        if fx_.shape != (self._nsamp,):
+            raise ValueError(
+                "Pre-transform samples must be a 1-d array with as many "
+                f"entries as sample points: {fx_.shape=}."
+            )
+        gy_ = np.zeros_like(fx_)
         self._transform(fx_, gy_)
 
         y = np.array(self._post_sampts)
-- 
2.43.0


From 93c64821cf289120315524394cdf2f1787c5cbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 45/88] fix: out-of-bounds accesses in extrapolated and resized
 FFTLog transforms

---
 src/triumvirate/src/fftlog.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index 3fb92f7..3d89a9f 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -172,7 +172,7 @@ void HankelTransform::initialise(
     this->post_sampts_extrap.resize(this->nsamp_trans);
     for (int j = 0; j < this->nsamp_trans; j++) {
       this->post_sampts_extrap[j] =
-        kr_aprod / this->pre_sampts[this->nsamp_trans - j - 1];
+        kr_aprod / this->pre_sampts_extrap[this->nsamp_trans - j - 1];
     }
   }
 
@@ -532,7 +532,7 @@ void SphericalBesselTransform::biased_transform(
       "The size of array `a` must be equal to the number of samples."
     );
   }
-  if (a.size() != N) {
+  if (b.size() != N) {
     b.resize(N);
   }
 
-- 
2.43.0


From f5f86f9785e8de730dc914dfe7ae86ae8a74236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 46/88] fix: sample points of double spherical Bessel
 transforms with unequal degrees

The low-ringing pivots differ when the degrees do, but the points of the
first dimension were reported and used for both.
---
 src/triumvirate/transforms.py | 14 ++++++++------
 src/triumvirate/winconv.py    | 27 +++++++++++++++++++++------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index 707dbd5..8a9cb86 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -390,9 +390,13 @@ class DoubleSphericalBesselTransform:
 
         self._logres = self._fbsjt[self._rep]._logres
         self._pre_sampts = np.asarray(self._fbsjt[self._rep]._pre_sampts)
-        self._post_sampts = np.asarray(self._fbsjt[self._rep]._post_sampts)[
-            self._post_slice
-        ]
+        # Pivot values, and thus post-transform sample points, may differ
+        # between the dimensions.
+        self._post_sampts_dims = tuple(
+            np.asarray(fbsjt_._post_sampts)[self._post_slice]
+            for fbsjt_ in self._fbsjt
+        )
+        self._post_sampts = self._post_sampts_dims[self._rep]
 
     @property
     def size(self):
@@ -448,9 +452,7 @@ class DoubleSphericalBesselTransform:
         post_samples = np.asarray(post_samples_T).T
         post_samples = post_samples[self._post_slice, self._post_slice]
 
-        post_sampts = np.meshgrid(
-            self._post_sampts, self._post_sampts, indexing='ij'
-        )
+        post_sampts = np.meshgrid(*self._post_sampts_dims, indexing='ij')
 
         return post_sampts, post_samples
 
diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index b4a1223..57f5bb7 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2588,8 +2588,9 @@ class BispecWinConv(WinConvBase):
         if k_out is None:
             self.k_out = _find_conv_range(
                 *[
-                    self._fdsjt[multipole]._post_sampts
+                    k_conv
                     for multipole in self._formulae.multipoles
+                    for k_conv in self._fdsjt[multipole]._post_sampts_dims
                 ]
             )
         else:
@@ -2650,8 +2651,22 @@ class BispecWinConv(WinConvBase):
         # Backward transform bispectrum multipoles to 3PCF multipoles.
         zeta_in = {}
         for multipole_Z in self._formulae._multipoles_Z_true:
-            _, zeta_in[multipole_Z] = self._bdsjt[multipole_Z].\
-                transform_cosmo_multipoles(-1, B_in[multipole_Z])
+            transformer = self._bdsjt[multipole_Z]
+            _, zeta_pole = transformer.transform_cosmo_multipoles(
+                -1, B_in[multipole_Z]
+            )
+
+            # The sample points may differ between the dimensions.
+            r_in, r_in_ = transformer._post_sampts_dims
+            if not np.array_equal(r_in, r_in_):
+                zeta_pole = RectBivariateSpline(
+                    r_in, r_in_, zeta_pole.real,
+                    kx=self.spline[0], ky=self.spline[0]
+                )(r_in, r_in) + 1j * RectBivariateSpline(
+                    r_in, r_in_, zeta_pole.imag,
+                    kx=self.spline[0], ky=self.spline[0]
+                )(r_in, r_in)
+            zeta_in[multipole_Z] = zeta_pole
 
         # Perform 3PCF convolution.
         zeta_conv = self._winconv.convolve(zeta_in, ic=ic)
@@ -2661,16 +2676,16 @@ class BispecWinConv(WinConvBase):
         for multipole in self._formulae.multipoles:
             transformer = self._fdsjt[multipole]
 
-            k_conv = transformer._post_sampts
+            k_conv = transformer._post_sampts_dims
             _, bk_conv_pole = transformer.transform_cosmo_multipoles(
                 1, zeta_conv[multipole]
             )
 
             B_conv_out[multipole] = RectBivariateSpline(
-                k_conv, k_conv, bk_conv_pole.real,
+                *k_conv, bk_conv_pole.real,
                 kx=self.spline[-1], ky=self.spline[-1]
             )(self.k_out, self.k_out) + 1j * RectBivariateSpline(
-                k_conv, k_conv, bk_conv_pole.imag,
+                *k_conv, bk_conv_pole.imag,
                 kx=self.spline[-1], ky=self.spline[-1]
             )(self.k_out, self.k_out)
 
-- 
2.43.0


From 8cb8046f4ba883684e8d14dcedb8392d0b63705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 47/88] fix: window convolution matrices could not be generated
 without MPI

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 57f5bb7..69b1b84 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2871,7 +2871,7 @@ class BispecWinConv(WinConvBase):
                     wcmat[multipole] = wcmat_[select_rows]
 
             return wcmat if (not concat or wcmat is None) \
-                else np.row_stack([
+                else np.vstack([
                     wcmat[multipole] for multipole in self._formulae.multipoles
                 ])
 
@@ -2896,7 +2896,7 @@ class BispecWinConv(WinConvBase):
                 wc_matrices[multipole_] = np.column_stack(
                     wc_matrices[multipole_]
                 )
-            return _return_wcmat(wc_matrices, concat)
+            return _return_wcmat(wc_matrices, concat, diag)
 
         # Run with MPI parallelisation.
         nthreads_env = os.getenv('OMP_NUM_THREADS')
-- 
2.43.0


From ef7eaa55e8871cf73739f50bbaf2fa0b767caada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 48/88] fix: sample points missing a multipole were accepted
 and those with more were rejected

---
 src/triumvirate/winconv.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 69b1b84..07626f0 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1673,7 +1673,9 @@ class WinConvBase:
                 Multipole(multipole): r_in[multipole]
                 for multipole in r_in.keys()
             }
-            if not set(self.r_in.keys()).issubset(self._formulae.multipoles_Z):
+            if not set(self._formulae._multipoles_Z_true).issubset(
+                self.r_in.keys()
+            ):
                 raise ValueError(
                     "The input 2PCF separation sample points must contain all "
                     "the multipole keys required by the convolution formulae."
@@ -1995,7 +1997,9 @@ class PowspecWinConv(WinConvBase):
                 Multipole(key): val
                 for key, val in k_in.items()
             }
-            if not set(self.k_in.keys()).issubset(self._formulae.multipoles_Z):
+            if not set(self._formulae._multipoles_Z_true).issubset(
+                self.k_in.keys()
+            ):
                 raise ValueError(
                     "The input power spectrum wavenumber sample points must "
                     "contain all the multipole keys required by the "
@@ -2504,7 +2508,9 @@ class BispecWinConv(WinConvBase):
                 Multipole(key): val
                 for key, val in k_in.items()
             }
-            if not set(self.k_in.keys()).issubset(self._formulae.multipoles_Z):
+            if not set(self._formulae._multipoles_Z_true).issubset(
+                self.k_in.keys()
+            ):
                 raise ValueError(
                     "The input bispectrum wavenumber sample points must "
                     "contain all the multipole keys required by the "
-- 
2.43.0


From b31fed517fd43a2ea464ccf7fa03b887ff5e165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 49/88] fix: the integral constraint of 3PCFs sampled at common
 points could not be calculated

---
 src/triumvirate/winconv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 07626f0..d0da3f7 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1683,7 +1683,7 @@ class WinConvBase:
         else:
             self.r_in = {
                 multipole: r_in
-                for multipole in self._formulae.multipoles_Z
+                for multipole in self._formulae._multipoles_Z_true
             }
 
         if r_out is None:
@@ -2008,7 +2008,7 @@ class PowspecWinConv(WinConvBase):
         else:
             self.k_in = {
                 multipole_Z: k_in
-                for multipole_Z in self._formulae.multipoles_Z
+                for multipole_Z in self._formulae._multipoles_Z_true
             }
 
         try:
@@ -2519,7 +2519,7 @@ class BispecWinConv(WinConvBase):
         else:
             self.k_in = {
                 multipole_Z: k_in
-                for multipole_Z in self._formulae.multipoles_Z
+                for multipole_Z in self._formulae._multipoles_Z_true
             }
 
         self._k_in_orig = None
-- 
2.43.0


From d9f18f774644cf612a91591078a6ae9039988058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 50/88] fix: convolution inputs were not accepted with the
 documented kinds of multipole keys

---
 src/triumvirate/winconv.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index d0da3f7..44093d7 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1865,6 +1865,8 @@ class TwoPCFWinConv(WinConvBase):
             a multipole) at sample points :attr:`r_out`.
 
         """
+        xi_in = {Multipole(key): val for key, val in xi_in.items()}
+
         xi_conv_out = {}
         for multipole in self._formulae.multipoles:
             summands = []
@@ -2115,6 +2117,8 @@ class PowspecWinConv(WinConvBase):
             (only returned if `ret_xi` is `True`).
 
         """
+        P_in = {Multipole(key): val for key, val in P_in.items()}
+
         # Backward transform power spectrum multipoles to 2PCF multipoles.
         xi_in = {}
         for multipole_Z in self._formulae._multipoles_Z_true:
@@ -2252,6 +2256,8 @@ class ThreePCFWinConv(WinConvBase):
             match the separation sample points of the input 3PCF.
 
         """
+        zeta_in = {Multipole(key): val for key, val in zeta_in.items()}
+
         # Enforce integral constraint.
         if 'ic' in self._formulae.multipoles_Z and ic is None:
             if self._catch_warnings:
@@ -2334,6 +2340,8 @@ class ThreePCFWinConv(WinConvBase):
             formulae but `ic` is `None`.
 
         """
+        zeta_diag_in = {Multipole(key): val for key, val in zeta_diag_in.items()}
+
         # Enforce integral constraint.
         if 'ic' in self._formulae.multipoles_Z and ic is None:
             raise ValueError(
@@ -2642,6 +2650,8 @@ class BispecWinConv(WinConvBase):
             (only returned if `ret_zeta` is `True`).
 
         """
+        B_in = {Multipole(key): val for key, val in B_in.items()}
+
         # Reinterpolate input bispectrum multipoles if necessary.
         if self._k_in_orig is not None:
             B_in = {
-- 
2.43.0


From 63a508dd6e864c2961978d1c49db7b0735a90d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 51/88] fix: do not add defaults to the transform options
 passed to window convolutions

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 44093d7..bea90ac 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1976,7 +1976,7 @@ class PowspecWinConv(WinConvBase):
         super().__init__(formulae, window_sampts, window_multipoles)
 
         # Set default transform parameters.
-        self._transform_kwargs = transform_kwargs or {}
+        self._transform_kwargs = dict(transform_kwargs or {})
         # if 'pivot' not in self._transform_kwargs:
         #     self._transform_kwargs['pivot'] = 1.
         # if 'lowring' not in self._transform_kwargs:
@@ -2493,7 +2493,7 @@ class BispecWinConv(WinConvBase):
             )
 
         # Initialise default transform parameters.
-        self._transform_kwargs = transform_kwargs or {}
+        self._transform_kwargs = dict(transform_kwargs or {})
         # if 'pivot' not in self._transform_kwargs:
         #     self._transform_kwargs['pivot'] = 1.
         # if 'lowring' not in self._transform_kwargs:
-- 
2.43.0


From aac6c2a84ef40d92d4ddcfcb6e358b9eec5c5163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 52/88] fix: resample bispectrum multipoles at as many
 wavenumbers as they came with

---
 src/triumvirate/winconv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index bea90ac..74113df 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2538,7 +2538,8 @@ class BispecWinConv(WinConvBase):
             self._k_in_orig = self.k_in.copy()
             self.k_in = {
                 multipole_Z: np.logspace(
-                    np.log10(_k_in_[0]), np.log10(_k_in_[-1]), len(k), base=10
+                    np.log10(_k_in_[0]), np.log10(_k_in_[-1]),
+                    len(_k_in_), base=10
                 )
                 for multipole_Z, _k_in_ in self._k_in_orig.items()
             }
-- 
2.43.0


From 2d4f367504fe30f241aa492c7d57f29fb4dd95cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 53/88] fix: gather convolution matrices with more processes
 than basis vectors

---
 src/triumvirate/winconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 74113df..dfe4c94 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -3073,7 +3073,7 @@ class BispecWinConv(WinConvBase):
             sendbuf = np.asarray([
                 wc_basis_vectors[key]
                 for wc_basis_vectors in wc_basis_vectors_sublist
-            ])
+            ], dtype=np.complex128)
             sendsizes = sendbuf.size
             recvsizes = self.comm.gather(sendsizes, root=self.comm_root)
             if self.comm.rank == self.comm_root:
-- 
2.43.0


From 883c2c5ae1a0f28abb78365955efa888830d4c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 54/88] fix: resample complex bispectrum multipoles at
 log-linear wavenumbers

Both parts of the samples are interpolated, and only for the multipoles
the convolution formulae need.
---
 src/triumvirate/winconv.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index dfe4c94..a616678 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2659,10 +2659,16 @@ class BispecWinConv(WinConvBase):
                 multipole_Z: RectBivariateSpline(
                     self._k_in_orig[multipole_Z],
                     self._k_in_orig[multipole_Z],
-                    B_in[multipole_Z],
+                    np.real(B_in[multipole_Z]),
                     kx=self.spline[-1], ky=self.spline[-1]
                 )(self.k_in[multipole_Z], self.k_in[multipole_Z])
-                for multipole_Z in B_in
+                + 1j * RectBivariateSpline(
+                    self._k_in_orig[multipole_Z],
+                    self._k_in_orig[multipole_Z],
+                    np.imag(B_in[multipole_Z]),
+                    kx=self.spline[-1], ky=self.spline[-1]
+                )(self.k_in[multipole_Z], self.k_in[multipole_Z])
+                for multipole_Z in self._formulae._multipoles_Z_true
             }
 
         # Backward transform bispectrum multipoles to 3PCF multipoles.
-- 
2.43.0


From 1afabffebd67bcdf64119d532c719dc351ff5947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 55/88] fix: account for imaginary multipoles in the window
 convolution matrix

Bispectrum multipoles with an odd sum of the first two degrees are
imaginary: the columns generated from real unit vectors vanished.
---
 src/triumvirate/winconv.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index a616678..b1fd9e6 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2860,14 +2860,23 @@ class BispecWinConv(WinConvBase):
         colstack_nodes = np.cumsum(colstack_sizes)
         dim_2d = np.sum(colstack_sizes)
 
+        # Multipoles with an odd sum of the first two degrees are imaginary.
+        phases = [
+            1j if (multipole_Z[0] + multipole_Z[1]) % 2 else 1.
+            for multipole_Z in self._formulae._multipoles_Z_true
+        ]
+        col_phases = np.repeat(phases, colstack_sizes)
+
         def win_convolve_vector(model_vector):  # numpydoc ignore=GL08
             multipole_model_subvectors = np.split(model_vector, colstack_nodes)
             B_model = {
-                multipole_Z: multipole_model_subvec.reshape((dim_1d, dim_1d))
-                for multipole_Z, multipole_model_subvec, dim_1d in zip(
+                multipole_Z:
+                phase * multipole_model_subvec.reshape((dim_1d, dim_1d))
+                for multipole_Z, multipole_model_subvec, dim_1d, phase in zip(
                     self._formulae._multipoles_Z_true,
                     multipole_model_subvectors,
                     dims_1d,
+                    phases,
                 )
             }
             B_model_conv = self.convolve(B_model, ic=ic)
@@ -2891,7 +2900,7 @@ class BispecWinConv(WinConvBase):
                     for idx in range(len(self.k_out))
                 ] if diag else slice(None)
                 for multipole, wcmat_ in wcmat.items():
-                    wcmat[multipole] = wcmat_[select_rows]
+                    wcmat[multipole] = wcmat_[select_rows] / col_phases
 
             return wcmat if (not concat or wcmat is None) \
                 else np.vstack([
-- 
2.43.0


From 719c8588b0e8c1db71bf1a9ede690b359199e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 56/88] fix: list window sources in the order of the multipoles

---
 src/triumvirate/winconv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index b1fd9e6..cccf028 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -994,7 +994,9 @@ class ThreePointWindow:
         paired_sampts = {}
         flat_multipoles = {}
         sources = []
-        for multipole, filepath in sorted(filepaths.items()):
+        for multipole, filepath in sorted(
+            filepaths.items(), key=lambda item: Multipole(item[0])
+        ):
             if subtract_shotnoise:
                 if len(usecols) != 4:
                     raise ValueError(
-- 
2.43.0


From 6950943ac867df04048c31ca7e55fd98adaf0359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:05 +0000
Subject: [PATCH 57/88] fix: leave input catalogues unmodified by measurements

---
 src/triumvirate/catalogue.py | 15 +++++++++++++++
 src/triumvirate/threept.py   | 10 ++++++++++
 src/triumvirate/twopt.py     | 10 ++++++++++
 3 files changed, 35 insertions(+)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index e8f0dbd..14d8362 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -11,6 +11,7 @@ Handle catalogue I/O and processing.
 
 """  # numpydoc ignore=SS01
 import warnings
+from copy import copy
 
 import numpy as np
 from astropy.table import Table
@@ -442,6 +443,20 @@ class ParticleCatalogue:
         else:
             raise ValueError('Cannot set values for non-string-type key.')
 
+    def copy(self):
+        """Return a copy of the catalogue, the particle data of which can
+        be modified without affecting the original.
+
+        Returns
+        -------
+        :class:`~triumvirate.catalogue.ParticleCatalogue`
+            Catalogue copy.
+
+        """
+        catalogue_copy = copy(self)
+        catalogue_copy._pdata = self._pdata.copy()
+        return catalogue_copy
+
     def compute_los(self):
         """Compute the line of sight to each particle.
 
diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index a8dc0d4..4920400 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -511,6 +511,10 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
 
     # -- Data ------------------------------------------------------------
 
+    # Align copies only, leaving the input catalogues unmodified.
+    catalogue_data = catalogue_data.copy()
+    catalogue_rand = catalogue_rand.copy()
+
     # Set up binning.
     if binning is None:
         binning = Binning.from_parameter_set(paramset)
@@ -1428,6 +1432,9 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
 
     # -- Data ------------------------------------------------------------
 
+    # Align a copy only, leaving the input catalogue unmodified.
+    catalogue_data = catalogue_data.copy()
+
     # Set up binning.
     if binning is None:
         binning = Binning.from_parameter_set(paramset)
@@ -1958,6 +1965,9 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
 
     # -- Data ------------------------------------------------------------
 
+    # Align a copy only, leaving the input catalogue unmodified.
+    catalogue_rand = catalogue_rand.copy()
+
     # Set up binning.
     if binning is None:
         binning = Binning.from_parameter_set(paramset)
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 9c1f319..7dcbaa5 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -434,6 +434,10 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
 
     # -- Data ------------------------------------------------------------
 
+    # Align copies only, leaving the input catalogues unmodified.
+    catalogue_data = catalogue_data.copy()
+    catalogue_rand = catalogue_rand.copy()
+
     # Set up binning.
     if binning is None:
         binning = Binning.from_parameter_set(paramset)
@@ -984,6 +988,9 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
 
     # -- Data ------------------------------------------------------------
 
+    # Align a copy only, leaving the input catalogue unmodified.
+    catalogue_data = catalogue_data.copy()
+
     # Set up binning.
     if binning is None:
         binning = Binning.from_parameter_set(paramset)
@@ -1442,6 +1449,9 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
 
     # -- Data ------------------------------------------------------------
 
+    # Align a copy only, leaving the input catalogue unmodified.
+    catalogue_rand = catalogue_rand.copy()
+
     # Set up binning.
     if binning is None:
         binning = Binning.from_parameter_set(paramset)
-- 
2.43.0


From b9790eb4d2d0464ca5a8c658be8a92fdd2067153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 58/88] fix: leave input parameter sets unmodified by
 measurements

---
 src/triumvirate/fieldmesh.py | 7 +++++++
 src/triumvirate/threept.py   | 7 ++++++-
 src/triumvirate/twopt.py     | 7 ++++++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/fieldmesh.py b/src/triumvirate/fieldmesh.py
index e2403e4..b9faecd 100644
--- a/src/triumvirate/fieldmesh.py
+++ b/src/triumvirate/fieldmesh.py
@@ -11,6 +11,8 @@ Handle fields and mesh grids.
     record_binned_vectors
 
 """  # numpydoc ignore=SS01
+from copy import deepcopy
+
 import numpy as np
 
 from ._field import _record_binned_vectors
@@ -79,6 +81,11 @@ def record_binned_vectors(binning, paramset=None, boxsize=None, ngrid=None):
             else list(ngrid)
 
     if params_sampling:
+        # Leave the input parameter set unmodified.
+        if isinstance(paramset, dict):
+            paramset = deepcopy(paramset)
+        else:
+            paramset = ParameterSet(param_dict=dict(paramset.items()))
         paramset = _modify_sampling_parameters(paramset, params_sampling)
 
     if isinstance(paramset, dict):  # likely redundant but safe
diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 4920400..58ab4b4 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -26,6 +26,7 @@ Window function estimator
 
 """  # numpydoc ignore=GL07,SS01
 import warnings
+from copy import deepcopy
 from pathlib import Path
 
 import numpy as np
@@ -143,7 +144,11 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
     if paramset is None:
         paramset, defaults = fetch_paramset_template('dict', ret_defaults=True)
     else:
-        # paramset = paramset
+        # Leave the input parameter set unmodified.
+        if isinstance(paramset, dict):
+            paramset = deepcopy(paramset)
+        else:
+            paramset = ParameterSet(param_dict=dict(paramset.items()))
         defaults = None
 
     if params_sampling is not None:
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 7dcbaa5..260bc1d 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -26,6 +26,7 @@ Window function estimator
 
 """  # numpydoc ignore=GL07,SS01
 import warnings
+from copy import deepcopy
 from pathlib import Path
 
 import numpy as np
@@ -117,7 +118,11 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
     if paramset is None:
         paramset, defaults = fetch_paramset_template('dict', ret_defaults=True)
     else:
-        # paramset = paramset
+        # Leave the input parameter set unmodified.
+        if isinstance(paramset, dict):
+            paramset = deepcopy(paramset)
+        else:
+            paramset = ParameterSet(param_dict=dict(paramset.items()))
         defaults = None
 
     if params_sampling is not None:
-- 
2.43.0


From 6ff4664026670f743c3a273868aaa5e154fb5f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:25 +0000
Subject: [PATCH 59/88] fix: keep the parts of output tags after a dot in
 output file names

---
 src/triumvirate/threept.py | 16 ++++++++--------
 src/triumvirate/twopt.py   | 12 ++++++------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 58ab4b4..f12f5d4 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -730,14 +730,14 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, f"{ofilename}.txt")
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, f"{ofilename}.npz")
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1294,7 +1294,7 @@ def compute_3pcf(catalogue_data, catalogue_rand,
 #                 ['% .9e'] * (datatab.shape[-1] - 6)
 #             )
 #             ofilename = _get_measurement_filename(paramset)
-#             ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+#             ofilepath = Path(odirpath, f"{ofilename}.txt")
 #             np.savetxt(
 #                 ofilepath, datatab,
 #                 fmt=datafmt, header=header, delimiter='\t'
@@ -1302,7 +1302,7 @@ def compute_3pcf(catalogue_data, catalogue_rand,
 #         elif save.lower().endswith('.npz'):
 #             results.update({'header': header})
 #             ofilename = _get_measurement_filename(paramset)
-#             ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+#             ofilepath = Path(odirpath, f"{ofilename}.npz")
 #             np.savez(ofilepath, **results)
 #         else:
 #             raise ValueError(
@@ -1615,14 +1615,14 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, f"{ofilename}.txt")
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, f"{ofilename}.npz")
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -2109,14 +2109,14 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, f"{ofilename}.txt")
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, f"{ofilename}.npz")
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 260bc1d..6e4b056 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -655,14 +655,14 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, f"{ofilename}.txt")
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, f"{ofilename}.npz")
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1170,14 +1170,14 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, f"{ofilename}.txt")
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, f"{ofilename}.npz")
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1591,14 +1591,14 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, f"{ofilename}.txt")
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, f"{ofilename}.npz")
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
-- 
2.43.0


From 2511a88187c4b3d0b0ce59eb38a4b045ed3e5e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:25 +0000
Subject: [PATCH 60/88] fix: return the same results whether or not they are
 saved

---
 src/triumvirate/threept.py | 12 ++++--------
 src/triumvirate/twopt.py   |  9 +++------
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index f12f5d4..81c81b7 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -735,10 +735,9 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
-            results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
             ofilepath = Path(odirpath, f"{ofilename}.npz")
-            np.savez(ofilepath, **results)
+            np.savez(ofilepath, header=header, **results)
         else:
             raise ValueError(
                 f"Unrecognised save format for measurements: {save}."
@@ -1300,10 +1299,9 @@ def compute_3pcf(catalogue_data, catalogue_rand,
 #                 fmt=datafmt, header=header, delimiter='\t'
 #             )
 #         elif save.lower().endswith('.npz'):
-#             results.update({'header': header})
 #             ofilename = _get_measurement_filename(paramset)
 #             ofilepath = Path(odirpath, f"{ofilename}.npz")
-#             np.savez(ofilepath, **results)
+#             np.savez(ofilepath, header=header, **results)
 #         else:
 #             raise ValueError(
 #                 f"Unrecognised save format for measurements: {save}."
@@ -1620,10 +1618,9 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
-            results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
             ofilepath = Path(odirpath, f"{ofilename}.npz")
-            np.savez(ofilepath, **results)
+            np.savez(ofilepath, header=header, **results)
         else:
             raise ValueError(
                 f"Unrecognised save format for measurements: {save}."
@@ -2114,10 +2111,9 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
-            results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
             ofilepath = Path(odirpath, f"{ofilename}.npz")
-            np.savez(ofilepath, **results)
+            np.savez(ofilepath, header=header, **results)
         else:
             raise ValueError(
                 f"Unrecognised save format for measurements: {save}."
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 6e4b056..cfd1c1d 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -660,10 +660,9 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
-            results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
             ofilepath = Path(odirpath, f"{ofilename}.npz")
-            np.savez(ofilepath, **results)
+            np.savez(ofilepath, header=header, **results)
         else:
             raise ValueError(
                 f"Unrecognised save format for measurements: {save}."
@@ -1175,10 +1174,9 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
-            results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
             ofilepath = Path(odirpath, f"{ofilename}.npz")
-            np.savez(ofilepath, **results)
+            np.savez(ofilepath, header=header, **results)
         else:
             raise ValueError(
                 f"Unrecognised save format for measurements: {save}."
@@ -1596,10 +1594,9 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
-            results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
             ofilepath = Path(odirpath, f"{ofilename}.npz")
-            np.savez(ofilepath, **results)
+            np.savez(ofilepath, header=header, **results)
         else:
             raise ValueError(
                 f"Unrecognised save format for measurements: {save}."
-- 
2.43.0


From 4b6e19953e4c824dcadfa46f19ff16dbd93715c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:25 +0000
Subject: [PATCH 61/88] fix: save wide-angle three-point windows apart from
 plain windows

---
 src/triumvirate/threept.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 81c81b7..c3562d1 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -1953,7 +1953,8 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         paramset=paramset, params_sampling=sampling_params,
         degrees=degrees, wa_orders=wa_orders,
         binning=binning, form=form, idx_bin=idx_bin,
-        catalogue_type='random', statistic_type='3pcf-win'
+        catalogue_type='random',
+        statistic_type='3pcf-win-wa' if wide_angle else '3pcf-win'
     )
 
     if isinstance(paramset, dict):  # likely redundant but safe
-- 
2.43.0


From c0c86e0c5ed067ac213030dd44db26fa50b319cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 62/88] fix: leave reader options unmodified when reading
 catalogues

---
 src/triumvirate/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 14d8362..08ff165 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -335,7 +335,7 @@ class ParticleCatalogue:
             if table_kwargs is None:
                 table_kwargs = {}
             if format.startswith('ascii'):
-                table_kwargs.update(names=names)
+                table_kwargs = dict(table_kwargs, names=names)
 
             self._pdata = Table.read(
                 filepath, format=format, **table_kwargs
-- 
2.43.0


From f982fed404164d15af4b09c7adf2bf4a39c09e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 63/88] fix: validate overridden parameters together, for the
 statistic measured

---
 src/triumvirate/fieldmesh.py | 5 +----
 src/triumvirate/threept.py   | 5 +----
 src/triumvirate/twopt.py     | 5 +----
 3 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/triumvirate/fieldmesh.py b/src/triumvirate/fieldmesh.py
index b9faecd..b3daa02 100644
--- a/src/triumvirate/fieldmesh.py
+++ b/src/triumvirate/fieldmesh.py
@@ -82,10 +82,7 @@ def record_binned_vectors(binning, paramset=None, boxsize=None, ngrid=None):
 
     if params_sampling:
         # Leave the input parameter set unmodified.
-        if isinstance(paramset, dict):
-            paramset = deepcopy(paramset)
-        else:
-            paramset = ParameterSet(param_dict=dict(paramset.items()))
+        paramset = deepcopy(dict(paramset.items()))
         paramset = _modify_sampling_parameters(paramset, params_sampling)
 
     if isinstance(paramset, dict):  # likely redundant but safe
diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index c3562d1..1db7868 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -145,10 +145,7 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
         paramset, defaults = fetch_paramset_template('dict', ret_defaults=True)
     else:
         # Leave the input parameter set unmodified.
-        if isinstance(paramset, dict):
-            paramset = deepcopy(paramset)
-        else:
-            paramset = ParameterSet(param_dict=dict(paramset.items()))
+        paramset = deepcopy(dict(paramset.items()))
         defaults = None
 
     if params_sampling is not None:
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index cfd1c1d..b883a04 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -119,10 +119,7 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
         paramset, defaults = fetch_paramset_template('dict', ret_defaults=True)
     else:
         # Leave the input parameter set unmodified.
-        if isinstance(paramset, dict):
-            paramset = deepcopy(paramset)
-        else:
-            paramset = ParameterSet(param_dict=dict(paramset.items()))
+        paramset = deepcopy(dict(paramset.items()))
         defaults = None
 
     if params_sampling is not None:
-- 
2.43.0


From 00f18c250fb4a3eb5fbea0e6d4c879ff924e6906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 64/88] fix: pad random catalogues for window functions when
 asked to

---
 src/triumvirate/threept.py | 25 ++++++++++++++++++-------
 src/triumvirate/twopt.py   | 25 ++++++++++++++++++-------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 1db7868..eb05d7b 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -1997,13 +1997,24 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
             for ax in ['x', 'y', 'z']
         })
 
-    catalogue_rand.centre(
-        [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
-    )
-
-    catalogue_rand.periodise(
-        [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
-    )
+    if paramset['alignment'] == 'centre':
+        catalogue_rand.centre(
+            [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
+        )
+        catalogue_rand.periodise(
+            [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
+        )
+    if paramset['alignment'] == 'pad':
+        if paramset['padscale'] == 'box':
+            kwargs = {'boxsize_pad': paramset['padfactor']}
+        if paramset['padscale'] == 'grid':
+            kwargs = {
+                'ngrid': [paramset['ngrid'][ax] for ax in ['x', 'y', 'z']],
+                'ngrid_pad': paramset['padfactor']
+            }
+        catalogue_rand.pad(
+            [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']], **kwargs
+        )
 
     if logger:
         try:
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index b883a04..278c517 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -1481,13 +1481,24 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
             for ax in ['x', 'y', 'z']
         })
 
-    catalogue_rand.centre(
-        [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
-    )
-
-    catalogue_rand.periodise(
-        [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
-    )
+    if paramset['alignment'] == 'centre':
+        catalogue_rand.centre(
+            [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
+        )
+        catalogue_rand.periodise(
+            [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
+        )
+    if paramset['alignment'] == 'pad':
+        if paramset['padscale'] == 'box':
+            kwargs = {'boxsize_pad': paramset['padfactor']}
+        if paramset['padscale'] == 'grid':
+            kwargs = {
+                'ngrid': [paramset['ngrid'][ax] for ax in ['x', 'y', 'z']],
+                'ngrid_pad': paramset['padfactor']
+            }
+        catalogue_rand.pad(
+            [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']], **kwargs
+        )
 
     if logger:
         try:
-- 
2.43.0


From b4d59874434b5e8c5b67b2199cc8780f0c540e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 65/88] fix: span the random catalogue with the derived box in
 the program

---
 src/triumvirate/main/triumvirate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index c0de1e6..98fc1ef 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -410,7 +410,7 @@ int main(int argc, char* argv[]) {
 
   if (params.catalogue_type == "survey") {
     if (params.volume == 0.) {
-      trv::set_boxsize_from_expand(catalogue_data.pos_span, params);
+      trv::set_boxsize_from_expand(catalogue_rand.pos_span, params);
       if (params.nmesh == 0) {
         trv::set_ngrid_from_cutoff(params);
       }
-- 
2.43.0


From 346b67501b02b6f6c9e7f609a807afc0bc6dbf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 66/88] fix: centre simulations in the box as the Python
 interface does

---
 src/triumvirate/main/triumvirate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index 98fc1ef..9c08134 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -449,6 +449,7 @@ int main(int argc, char* argv[]) {
         trv::set_ngrid_from_cutoff(params);
       }
     }
+    trv::ParticleCatalogue::centre_in_box(catalogue_data, params.boxsize);
     catalogue_data.offset_coords_for_periodicity(params.boxsize);
   } else
   if (params.catalogue_type == "random") {
-- 
2.43.0


From 25f0806b4a79adff58a43efaf8357fec383032ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 67/88] fix: set up binning in the program once the box and
 grid are known

---
 src/triumvirate/main/triumvirate.cpp | 42 ++++++++++++++--------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index 9c08134..1b81f85 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -306,26 +306,7 @@ int main(int argc, char* argv[]) {
   }
 
   // ---------------------------------------------------------------------
-  // B.1 Binning
-  // ---------------------------------------------------------------------
-
-  if (trv::sys::currTask == 0) {
-    trv::sys::logger.stat("[MAIN:TRV:B] Setting up binning...");
-  }
-
-  trv::Binning binning(params);  // binning
-  if (params.binning == "custom") {
-    _set_custom_bins(binning);
-  } else {
-    binning.set_bins();
-  }
-
-  if (trv::sys::currTask == 0) {
-    trv::sys::logger.stat("[MAIN:TRV:B] ... set up binning.");
-  }
-
-  // ---------------------------------------------------------------------
-  // B.2 Line of sight
+  // B.1 Line of sight
   // ---------------------------------------------------------------------
 
   if (params.catalogue_type != "none") {
@@ -397,7 +378,7 @@ int main(int argc, char* argv[]) {
   }
 
   // ---------------------------------------------------------------------
-  // B.3 Box alignment
+  // B.2 Box alignment
   // ---------------------------------------------------------------------
 
   if (params.catalogue_type != "none") {
@@ -493,6 +474,25 @@ int main(int argc, char* argv[]) {
     }
   }
 
+  // ---------------------------------------------------------------------
+  // B.3 Binning
+  // ---------------------------------------------------------------------
+
+  if (trv::sys::currTask == 0) {
+    trv::sys::logger.stat("[MAIN:TRV:B] Setting up binning...");
+  }
+
+  trv::Binning binning(params);  // binning
+  if (params.binning == "custom") {
+    _set_custom_bins(binning);
+  } else {
+    binning.set_bins();
+  }
+
+  if (trv::sys::currTask == 0) {
+    trv::sys::logger.stat("[MAIN:TRV:B] ... set up binning.");
+  }
+
   // ---------------------------------------------------------------------
   // B.4 Constants
   // ---------------------------------------------------------------------
-- 
2.43.0


From 6cd998ebf7c7240f6e9725118dbe6e616ebf85ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 68/88] fix: insert the mean density of simulations of which
 the box is derived in the program

---
 src/triumvirate/main/triumvirate.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index 1b81f85..2df5139 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -430,6 +430,22 @@ int main(int argc, char* argv[]) {
         trv::set_ngrid_from_cutoff(params);
       }
     }
+
+    // Insert the missing 'nz' field based on particle count and box size,
+    // as the latter may have been unknown at the loading of the catalogue.
+    bool nz_missing = true;
+    for (int pid = 0; pid < catalogue_data.ntotal; pid++) {
+      if (catalogue_data[pid].nz != 0.) {
+        nz_missing = false;
+        break;
+      }
+    }
+    if (nz_missing) {
+      for (int pid = 0; pid < catalogue_data.ntotal; pid++) {
+        catalogue_data[pid].nz = catalogue_data.ntotal / params.volume;
+      }
+    }
+
     trv::ParticleCatalogue::centre_in_box(catalogue_data, params.boxsize);
     catalogue_data.offset_coords_for_periodicity(params.boxsize);
   } else
-- 
2.43.0


From d957c0795ae07f14691b44505763127c02e8ac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 69/88] fix: measure with a logger other than the package's own

The fallback message for loggers without C++ state repeated the keyword
argument they do not accept, so any standard logger raised TypeError.
---
 src/triumvirate/threept.py | 30 ++++++++++--------------------
 src/triumvirate/twopt.py   | 30 ++++++++++--------------------
 2 files changed, 20 insertions(+), 40 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index eb05d7b..2e1e336 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -607,8 +607,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -624,8 +623,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -686,8 +684,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             logger.info(
                 "Measuring %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = threept_algofunc(
@@ -707,8 +704,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             logger.info(
                 "... measured %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1506,8 +1502,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -1521,8 +1516,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -1572,8 +1566,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             logger.info(
                 "Measuring %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = threept_algofunc(particles_data, paramset, binning, norm_factor)
@@ -1590,8 +1583,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             logger.info(
                 "... measured %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -2075,8 +2067,7 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "Measuring three-point correlation function window "
-                "from a random catalogue...",
-                cpp_state='start'
+                "from a random catalogue..."
             )
 
     results = _compute_3pcf_window(
@@ -2095,8 +2086,7 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "... measured three-point correlation function window "
-                "from a random catalogue.",
-                cpp_state='end'
+                "from a random catalogue."
             )
 
     if save:
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 278c517..ab1b5b9 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -530,8 +530,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -547,8 +546,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -612,8 +610,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             logger.info(
                 "Measuring %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = twopt_algofunc(
@@ -633,8 +630,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             logger.info(
                 "... measured %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1063,8 +1059,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data =  \
@@ -1078,8 +1073,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -1129,8 +1123,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             logger.info(
                 "Measuring %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = twopt_algofunc(particles_data, paramset, binning, norm_factor)
@@ -1147,8 +1140,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             logger.info(
                 "... measured %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1559,8 +1551,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "Measuring two-point correlation function window "
-                "from a random catalogue...",
-                cpp_state='start'
+                "from a random catalogue..."
             )
 
     results = _compute_corrfunc_window(
@@ -1578,8 +1569,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "... measured two-point correlation function window "
-                "from a random catalogue.",
-                cpp_state='end'
+                "from a random catalogue."
             )
 
     if save:
-- 
2.43.0


From 5c3440d06a34128ca047e2106b48be3f935363bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 70/88] fix: leave vanishing window convolution terms out of
 the list

A vanishing symbolic coefficient is an exact integer, which does not compare
equal to the float zero; an empty list of terms cannot be sized.
---
 apps/calculators/gen_wc_coeffs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/calculators/gen_wc_coeffs.py b/apps/calculators/gen_wc_coeffs.py
index a85efd6..0832d16 100644
--- a/apps/calculators/gen_wc_coeffs.py
+++ b/apps/calculators/gen_wc_coeffs.py
@@ -92,7 +92,7 @@ def main():
         wc_coeff = calc_threept_winconv_coeff(
             convolved_multipole, wmpole, umpole, symb=True
         )
-        if wc_coeff != 0.:
+        if wc_coeff != 0:
             terms.append(WinConvTerm(wmpole, umpole, wc_coeff))
 
     # Sort terms.
@@ -120,7 +120,7 @@ def main():
             print(f"Saved terms to file: {args.save}.npy")
 
     # Print terms.
-    maxlen_coeff = max(len(str(term.coeff)) for term in terms)
+    maxlen_coeff = max((len(str(term.coeff)) for term in terms), default=0)
     fmt_str = f"{{:}}: {{: >{maxlen_coeff}}} Q_{{{{{{:}}}}}} Z_{{{{{{:}}}}}}"
 
     for term in terms:
-- 
2.43.0


From 98ad0bf20a2d9a7d0c32ff1cf1cfa2e93c37d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 71/88] fix: combine the measurement columns of three-point
 statistics

Three-point measurements have three columns of each coordinate before the
measurements, so shot noise was stacked for raw values and so on.
---
 apps/io/comb_data_vectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/io/comb_data_vectors.py b/apps/io/comb_data_vectors.py
index ca91646..a74c2ee 100644
--- a/apps/io/comb_data_vectors.py
+++ b/apps/io/comb_data_vectors.py
@@ -151,8 +151,8 @@ def read_measurements(stat, directory, fnpattern, sn_range=None):
     USECOLS = {
         'pk': list(range(7)),
         'xi': list(range(5)),
-        'bk': list(range(2, 9)),
-        'zeta': list(range(2, 9)),
+        'bk': list(range(3, 10)),
+        'zeta': list(range(3, 10)),
     }
 
     # Check arguments.
-- 
2.43.0


From b910073412805501be0401228969ef85f2097ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 72/88] fix: combine the same realisations of all components in
 order

Files were stacked in directory order whatever their serial numbers, which
were matched on the whole path, so rows of different components could belong
to different realisations. Tables of one row are read as such.
---
 apps/io/comb_data_vectors.py | 52 +++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/apps/io/comb_data_vectors.py b/apps/io/comb_data_vectors.py
index a74c2ee..7635d4b 100644
--- a/apps/io/comb_data_vectors.py
+++ b/apps/io/comb_data_vectors.py
@@ -138,9 +138,10 @@ def read_measurements(stat, directory, fnpattern, sn_range=None):
 
     Returns
     -------
-    tuple of :class:`numpy.ndarray` of length 5
+    tuple of :class:`numpy.ndarray` of length 6
         Bin centres, bin effective coordinates, bin contribution counts,
-        stacked raw measurements and stacked shot noise measurements.
+        stacked raw measurements, stacked shot noise measurements and
+        serial numbers (in increasing order).
 
     Raises
     ------
@@ -171,18 +172,27 @@ def read_measurements(stat, directory, fnpattern, sn_range=None):
             f"No filename of pattern {fnpattern} found in {directory}."
         )
 
-    paths = []
+    paths, serial_nums = [], []
     for path in paths_found:
-        serial_num = int(re.search(fnpattern, path).group(1))
+        serial_num = int(
+            re.match(fnpattern, os.path.basename(path)).group(1)
+        )
         if sn_range is None or (sn_range[0] <= serial_num <= sn_range[1]):
             paths.append(path)
+            serial_nums.append(serial_num)
+
+    order = np.argsort(serial_nums, kind='stable')
+    paths = [paths[idx] for idx in order]
+    serial_nums = np.asarray(serial_nums)[order]
 
     # Collate data.
     bins_list, coords_list, counts_list = [], [], []
     measurement_raw_list, measurement_shotnoise_list = [], []
 
     for path in paths:
-        data_ = np.loadtxt(path, usecols=USECOLS[stat], unpack=True)
+        data_ = np.loadtxt(
+            path, usecols=USECOLS[stat], unpack=True, ndmin=2
+        )
 
         bins_list.append(data_[0])
         coords_list.append(data_[1])
@@ -210,13 +220,14 @@ def read_measurements(stat, directory, fnpattern, sn_range=None):
     measurements_raw = np.vstack(measurement_raw_list)
     measurements_shotnoise = np.vstack(measurement_shotnoise_list)
 
-    return bins, coords, counts, measurements_raw, measurements_shotnoise
+    return bins, coords, counts, measurements_raw, measurements_shotnoise, \
+        serial_nums
 
 
 def insert_component(component, directory,
                      components_bins, components_coords, components_counts,
                      components_vectors, components_vectors_shotnoise,
-                     tag='', sn_range=None):
+                     tag='', sn_range=None, components_serials=None):
     """Insert data vector component to a list to be combined.
 
     Parameters
@@ -240,6 +251,15 @@ def insert_component(component, directory,
         Data file common tag (default is '').
     sn_range : sequence of int of length 2, optional
         Data file serial number range (default is `None`).
+    components_serials : list of :class:`numpy.ndarray`, optional
+        Data file serial numbers for all components to append to
+        (default is `None`).
+
+    Raises
+    ------
+    ValueError
+        If the serial numbers do not match those of the components
+        in `components_serials`.
 
     """
     # Extract component.
@@ -248,11 +268,23 @@ def insert_component(component, directory,
 
     print(f"Reading {component} measurements.")
 
-    bins, coords, counts, measurements_raw, measurements_shotnoise = \
+    bins, coords, counts, measurements_raw, measurements_shotnoise, serials = \
         read_measurements(stat, directory, fnpattern, sn_range=sn_range)
 
     print(f"Read {len(measurements_raw)} {component} measurement files.")
 
+    # Check realisations agree.
+    if components_serials is not None:
+        if any(
+            not np.array_equal(serials, serials_)
+            for serials_ in components_serials
+        ):
+            raise ValueError(
+                "Serial numbers of {} measurements do not match "
+                "those of other components.".format(component)
+            )
+        components_serials.append(serials)
+
     # Append component.
     components_bins.append(bins)
     components_coords.append(coords)
@@ -333,13 +365,15 @@ if __name__ == '__main__':
     components_bins, components_coords = [], []
     components_counts = []
     components_vectors, components_vectors_shotnoise = [], []
+    components_serials = []
     for component in config.components:
         insert_component(
             component, config.input_dir,
             components_bins, components_coords,
             components_counts,
             components_vectors, components_vectors_shotnoise,
-            tag=config.tag, sn_range=config.range
+            tag=config.tag, sn_range=config.range,
+            components_serials=components_serials
         )
 
     # Combine components.
-- 
2.43.0


From 38577f0f88a4db7804445ed5b608743beaff1ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 73/88] fix: recognise the message that there is nothing to
 exchange

---
 apps/io/exchange_coord_axes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/io/exchange_coord_axes.py b/apps/io/exchange_coord_axes.py
index 9a67791..8d6c0cf 100644
--- a/apps/io/exchange_coord_axes.py
+++ b/apps/io/exchange_coord_axes.py
@@ -163,7 +163,7 @@ def main():
         output_filename, stat_type, multipole_ex, multipole = \
             transpose_stat_str(cfg.input_path, ret_multipole=True)
     except ValueError as err:
-        if "The first two multipole indices the same." in str(err):
+        if "The first two multipole indices are the same." in str(err):
             print(
                 "No transposition is performed as the first two multipole "
                 "indices are the same."
-- 
2.43.0


From 0fdf7535cc8a75833075dcbaee9e60abed3a7cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 74/88] fix: exchange coordinate axes of a single-row table

---
 apps/io/exchange_coord_axes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/io/exchange_coord_axes.py b/apps/io/exchange_coord_axes.py
index 8d6c0cf..bc677e1 100644
--- a/apps/io/exchange_coord_axes.py
+++ b/apps/io/exchange_coord_axes.py
@@ -200,7 +200,7 @@ def main():
     header = ''.join(headerlines).rstrip()
 
     # Transpose the data table.
-    datatab = np.loadtxt(cfg.input_path)
+    datatab = np.loadtxt(cfg.input_path, ndmin=2)
     datatab_ex = transpose_datatab(datatab)
 
     # Save the transposed data table.
-- 
2.43.0


From 819b55839a670ea7a45a29e6ca52a2a4f8039f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 75/88] fix: generate a parameter file without modifications or
 output name

The list of modifications defaulted to None and the default output name
used an attribute that was never set.
---
 apps/io/gen_param_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/io/gen_param_file.py b/apps/io/gen_param_file.py
index f5eec85..911fbc2 100644
--- a/apps/io/gen_param_file.py
+++ b/apps/io/gen_param_file.py
@@ -73,7 +73,7 @@ def configure():
     )
 
     parser.add_argument(
-        '-p', '--modify', action='append', nargs=2,
+        '-p', '--modify', action='append', nargs=2, default=[],
         metavar=('PARAM_NAME', 'PARAM_VALUE'),
         help="pairwise modified parameter name(s) and value(s)"
     )
@@ -86,6 +86,7 @@ def configure():
     else:
         config.file_ext = f".{config.fmt}"
 
+    config.file_stem = Path(config.template_path).stem
     config.output = config.output or f"{config.file_stem}_new{config.file_ext}"
 
     return config
-- 
2.43.0


From 2ee3a22c2ba184dc4250874217b552017301b535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 76/88] fix: parse new values of unset and boolean template
 parameters

NoneType cannot be called with a value, and the boolean of any non-empty
string is true.
---
 apps/io/gen_param_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/io/gen_param_file.py b/apps/io/gen_param_file.py
index 911fbc2..34ee3e8 100644
--- a/apps/io/gen_param_file.py
+++ b/apps/io/gen_param_file.py
@@ -120,6 +120,10 @@ def setitem_nested_dict(dictionary, keychain, value):
     try:
         if isinstance(base_dict[key_child], list):
             base_dict[key_child] = literal_eval(value)
+        elif base_dict[key_child] is None \
+                or isinstance(base_dict[key_child], bool):
+            # Neither is constructible from the string value.
+            base_dict[key_child] = yaml.safe_load(value)
         else:
             base_dict[key_child] = type(base_dict[key_child])(value)
     except KeyError as err:
-- 
2.43.0


From bff3339c2c8758c0bfaa0e29fea5dce0fda542f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:57 +0000
Subject: [PATCH 77/88] fix: modify every line of repeated parameters in
 generated INI files

The list of modifications was altered while being walked through, so a
parameter given or listed twice kept or appended a stale value.
---
 apps/io/gen_param_file.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/apps/io/gen_param_file.py b/apps/io/gen_param_file.py
index 34ee3e8..c8c9c55 100644
--- a/apps/io/gen_param_file.py
+++ b/apps/io/gen_param_file.py
@@ -151,24 +151,27 @@ def gen_cpp_params(params_template, params_to_modify):
 
     """
     params = params_template.copy()
+    params_modified = dict(params_to_modify)  # last value if repeated
+    params_unused = dict(params_modified)
     for lineno, line in enumerate(params_template):
         pname_line = line.split('#')[0].split('=')[0].strip()
         if not pname_line:
             continue  # skip comment lines
-        for pidx, (pname, pval) in enumerate(params_to_modify):
-            if pname_line == pname:
-                params[lineno] = f"{pname} = {pval}\n"
-                del params_to_modify[pidx]  # remove once replaced
+        if pname_line in params_modified:
+            params[lineno] = f"{pname_line} = {params_modified[pname_line]}\n"
+            params_unused.pop(pname_line, None)
 
-    if params_to_modify:  # check for unmodified parameters
+    if params_unused:  # check for unmodified parameters
         warnings.warn(
             "The following parameters are added: {}. "
             "Check for possible typos as they are missing in the template."
-            .format(params_to_modify),
+            .format(list(params_unused)),
             category=RuntimeWarning
         )
         params.append('\n')
-        params.extend([' = '.join(param) + '\n' for param in params_to_modify])
+        params.extend(
+            [' = '.join(param) + '\n' for param in params_unused.items()]
+        )
 
     return "".join(params)
 
-- 
2.43.0


From 12230ead7bd788124b4f6282ca98fe6a9ceb7e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 78/88] fix: keep the case of the FFTW wisdom directory of
 parameter sets

The path was put in lower case, naming another directory.
---
 src/triumvirate/parameters.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 636fb9b..34ab9a6 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -541,8 +541,10 @@ cdef class ParameterSet:
         if (
             use_fftw_wisdom_ := self._params.get('use_fftw_wisdom')
         ) is not None:
+            if str(use_fftw_wisdom_).lower() in ['false', 'true']:
+                use_fftw_wisdom_ = str(use_fftw_wisdom_).lower()
             self.thisptr.use_fftw_wisdom = \
-                str(use_fftw_wisdom_).lower().encode('utf-8')
+                str(use_fftw_wisdom_).encode('utf-8')
 
         if (verbose_ := self._params.get('verbose')) is not None:
             self.thisptr.verbose = verbose_
-- 
2.43.0


From 7dde7a0172d497519af8e96c6a2f95a13341cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:34 +0000
Subject: [PATCH 79/88] fix: import and export the FFTW wisdom of every mesh

One process-wide flag per direction made all meshes after the first one
neither read nor write their own wisdom files.
---
 src/triumvirate/include/monitor.hpp |  9 +++++----
 src/triumvirate/src/field.cpp       | 28 ++++++++++++++++++++++------
 src/triumvirate/src/monitor.cpp     |  4 ++--
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/triumvirate/include/monitor.hpp b/src/triumvirate/include/monitor.hpp
index e97fc52..43dc254 100644
--- a/src/triumvirate/include/monitor.hpp
+++ b/src/triumvirate/include/monitor.hpp
@@ -54,6 +54,7 @@
 #include <cstring>
 #include <iostream>
 #include <regex>
+#include <set>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -265,10 +266,10 @@ extern float max_count_grid;  ///< maximum number of grids
 extern int count_fft;   ///< number of FFTs
 extern int count_ifft;  ///< number of IFFTs
 
-/// wisdom import status for forward transform
-extern bool fftw_wisdom_f_imported;
-/// wisdom import status for backward transform
-extern bool fftw_wisdom_b_imported;
+/// wisdom files imported (or exported) for forward transform
+extern std::set<std::string> fftw_wisdom_f_imported;
+/// wisdom files imported (or exported) for backward transform
+extern std::set<std::string> fftw_wisdom_b_imported;
 
 /**
  * @brief Return size in gibibytes.
diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 6f7d682..5a3a40f 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -96,7 +96,11 @@ MeshField::MeshField(
     std::FILE* fftw_wisdom_file_b = nullptr;
 
     if (this->params.use_fftw_wisdom != "") {
-      if (!trv::sys::fftw_wisdom_f_imported) {
+      if (
+        trv::sys::fftw_wisdom_f_imported.count(
+          this->params.fftw_wisdom_file_f
+        ) == 0
+      ) {
         fftw_wisdom_file_f =
           std::fopen(this->params.fftw_wisdom_file_f.c_str(), "r");
         if (fftw_wisdom_file_f != nullptr) {
@@ -125,7 +129,11 @@ MeshField::MeshField(
         }
       }
 
-      if (!trv::sys::fftw_wisdom_b_imported) {
+      if (
+        trv::sys::fftw_wisdom_b_imported.count(
+          this->params.fftw_wisdom_file_b
+        ) == 0
+      ) {
         fftw_wisdom_file_b =
           fopen(this->params.fftw_wisdom_file_b.c_str(), "r");
         if (fftw_wisdom_file_b != nullptr) {
@@ -159,7 +167,9 @@ MeshField::MeshField(
       fftw_import_wisdom_from_filename(
         this->params.fftw_wisdom_file_f.c_str()
       );
-      trv::sys::fftw_wisdom_f_imported = true;
+      trv::sys::fftw_wisdom_f_imported.insert(
+        this->params.fftw_wisdom_file_f
+      );
       if (trvs::currTask == 0) {
         trvs::logger.info(
           "FFTW wisdom file for forward transforms has been imported: %s",
@@ -277,14 +287,18 @@ MeshField::MeshField(
           this->params.fftw_wisdom_file_f.c_str()
         );
       }
-      trv::sys::fftw_wisdom_f_imported = true;
+      trv::sys::fftw_wisdom_f_imported.insert(
+        this->params.fftw_wisdom_file_f
+      );
     }
 
     if (import_fftw_wisdom_b) {
       fftw_import_wisdom_from_filename(
         this->params.fftw_wisdom_file_b.c_str()
       );
-      trv::sys::fftw_wisdom_b_imported = true;
+      trv::sys::fftw_wisdom_b_imported.insert(
+        this->params.fftw_wisdom_file_b
+      );
       if (trvs::currTask == 0) {
         trvs::logger.info(
           "FFTW wisdom file for backward transforms has been imported: %s",
@@ -330,7 +344,9 @@ MeshField::MeshField(
           this->params.fftw_wisdom_file_b.c_str()
         );
       }
-      trv::sys::fftw_wisdom_b_imported = true;
+      trv::sys::fftw_wisdom_b_imported.insert(
+        this->params.fftw_wisdom_file_b
+      );
     }
 
     if (this->params.interlace == "true") {
diff --git a/src/triumvirate/src/monitor.cpp b/src/triumvirate/src/monitor.cpp
index 4bc37a4..4a3ae4a 100644
--- a/src/triumvirate/src/monitor.cpp
+++ b/src/triumvirate/src/monitor.cpp
@@ -107,8 +107,8 @@ float max_count_grid = 0.;
 int count_fft = 0;
 int count_ifft = 0;
 
-bool fftw_wisdom_f_imported = false;
-bool fftw_wisdom_b_imported = false;
+std::set<std::string> fftw_wisdom_f_imported;
+std::set<std::string> fftw_wisdom_b_imported;
 
 auto clockStart = std::chrono::steady_clock::now();  ///< program starting time
 
-- 
2.43.0


From d46033c5c0425c248bb6302daca05cbcf2f33bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 80/88] fix: pass the arguments and accept integer levels in
 Logger::log

The arguments were dropped, and integer levels of 10 or more were
rejected as they were divided down to a single digit.
---
 src/triumvirate/include/monitor.hpp |  2 ++
 src/triumvirate/src/monitor.cpp     | 19 ++++++++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/triumvirate/include/monitor.hpp b/src/triumvirate/include/monitor.hpp
index 43dc254..96387f6 100644
--- a/src/triumvirate/include/monitor.hpp
+++ b/src/triumvirate/include/monitor.hpp
@@ -562,6 +562,8 @@ class Logger {
   void error(const char* fmt_string, ...);
 
  private:
+  void vlog(int level_entry, const char* fmt_string, std::va_list args);
+
   void emit(std::string log_type, const char* fmt_string, std::va_list args);
 };
 
diff --git a/src/triumvirate/src/monitor.cpp b/src/triumvirate/src/monitor.cpp
index 4a3ae4a..ca71f22 100644
--- a/src/triumvirate/src/monitor.cpp
+++ b/src/triumvirate/src/monitor.cpp
@@ -371,13 +371,25 @@ void Logger::emit(
 }
 
 void Logger::log(LogLevel entry_level, const char* fmt_string, ...) {
-  Logger::log(static_cast<int>(entry_level), fmt_string);
+  std::va_list args;
+  va_start(args, fmt_string);
+  Logger::vlog(static_cast<int>(entry_level), fmt_string, args);
+  va_end(args);
 }
 
 void Logger::log(int level_entry, const char* fmt_string, ...) {
+  std::va_list args;
+  va_start(args, fmt_string);
+  Logger::vlog(level_entry, fmt_string, args);
+  va_end(args);
+}
+
+void Logger::vlog(
+  int level_entry, const char* fmt_string, std::va_list args
+) {
   if (level_entry >= this->level_limit) {
     // CAVEAT: See @ref trv::sys::LogLevel.
-    level_entry /= 10;
+    level_entry = (level_entry / 10) * 10;
 
     std::string log_type;
 
@@ -431,10 +443,7 @@ void Logger::log(int level_entry, const char* fmt_string, ...) {
       }
     }
 
-    std::va_list args;
-    va_start(args, fmt_string);
     Logger::emit(log_type, fmt_string, args);
-    va_end(args);
   }
 }
 
-- 
2.43.0


From fd3936aa79f47c66593c757fb789096c7d96d2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 81/88] fix: keep progress-bar nodes within bounds

The default nodes were preceded by as many zeros, the search for the next
node ran past the end of the list, and a passed node was reported late.
---
 src/triumvirate/src/monitor.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/src/monitor.cpp b/src/triumvirate/src/monitor.cpp
index ca71f22..bc4c3f6 100644
--- a/src/triumvirate/src/monitor.cpp
+++ b/src/triumvirate/src/monitor.cpp
@@ -557,6 +557,7 @@ void ProgressBar::set_nodes(std::vector<float> nodes) {
     );
   }
   this->nodes = nodes;
+  this->set_progress(this->progress);
 }
 
 void ProgressBar::set_task_idx(int task_idx) {
@@ -581,7 +582,10 @@ void ProgressBar::set_progress(float progress) {
   this->progress = progress;
 
   this->next_node_idx = 0;
-  while (this->progress > this->nodes[this->next_node_idx]) {
+  while (
+    this->next_node_idx < int(this->nodes.size()) &&
+    this->progress > this->nodes[this->next_node_idx]
+  ) {
     this->next_node_idx += 1;
   }
 }
@@ -596,7 +600,10 @@ void ProgressBar::update(float progress_now) {
   this->progress = progress_now;
 
   if (this->progress <= 1.) {
-    if (this->progress >= this->nodes[this->next_node_idx]) {
+    if (
+      this->next_node_idx < int(this->nodes.size()) &&
+      this->progress >= this->nodes[this->next_node_idx]
+    ) {
       int pos = this->bar_width * this->progress;
 
       // Print the timestamped status.
@@ -638,7 +645,13 @@ void ProgressBar::update(float progress_now) {
       std::cout << "\r";
       std::cout.flush();
 
-      this->next_node_idx += 1;
+      // Skip all the nodes passed.
+      while (
+        this->next_node_idx < int(this->nodes.size()) &&
+        this->progress >= this->nodes[this->next_node_idx]
+      ) {
+        this->next_node_idx += 1;
+      }
     }
   } else {
     throw InvalidDataError(
@@ -649,7 +662,7 @@ void ProgressBar::update(float progress_now) {
 }
 
 void ProgressBar::set_default_pcpt_nodes() {
-  this->nodes.resize(101, 0.);
+  this->nodes.clear();
   for (int pcpt = 0; pcpt <= 100; ++pcpt) {
     this->nodes.push_back(float(pcpt) / 100.);
   }
-- 
2.43.0


From e66737a47ebee0a5ca7de24f5632b81b3e8f6de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 82/88] fix: count the progress-bar tasks of row-form bispectra

The field of the fixed bin is transformed once and not for each entry.
---
 src/triumvirate/src/threept.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/threept.cpp b/src/triumvirate/src/threept.cpp
index 7456deb..665c817 100644
--- a/src/triumvirate/src/threept.cpp
+++ b/src/triumvirate/src/threept.cpp
@@ -419,7 +419,9 @@ trv::BispecMeasurements compute_bispec(
           0. : 1.;  // std::pow(-1., params.ell1 + params.ell2 + params.ELL);
 
         // Set up FFT counter and progress bar.
-        int progbar_task_count = 4 + 3 * dv_dim;
+        // The first field is only transformed once for a row.
+        int progbar_task_count = (params.shape == "row") ?
+          5 + 2 * dv_dim : 4 + 3 * dv_dim;
         std::stringstream progbar_name_ss;
         progbar_name_ss
           << "component orders (" << m1_ << ", " << m2_ << ", " << M_ << ")";
@@ -1633,7 +1635,9 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
         );
 
       // Set up FFT counter and progress bar.
-      int progbar_task_count = 2 + 3 * dv_dim;
+      // The first field is only transformed once for a row.
+      int progbar_task_count = (params.shape == "row") ?
+        3 + 2 * dv_dim : 2 + 3 * dv_dim;
       std::stringstream progbar_name_ss;
       progbar_name_ss
         << "component orders (" << m1_ << ", " << m2_ << ", " << M_ << ")";
-- 
2.43.0


From 978885095809e81730735c808d2c741b5357329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 83/88] fix: log warnings from files with braces in their names

---
 src/triumvirate/logger.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/triumvirate/logger.py b/src/triumvirate/logger.py
index be6efce..5bc7833 100644
--- a/src/triumvirate/logger.py
+++ b/src/triumvirate/logger.py
@@ -120,11 +120,6 @@ def _format_warning(message, category, filename, lineno, line=None):
         message, category, filename, lineno, None, line
     )
 
-    msg_txt = "{} ({}:{}:{}{{}})".format(
-        str(msg.message).replace('{', '{{').replace('}', '}}'),
-        msg.filename, msg.lineno, msg.category.__name__
-    )
-
     if msg.line is None:
         try:
             import linecache
@@ -135,10 +130,14 @@ def _format_warning(message, category, filename, lineno, line=None):
         linesource = msg.line
 
     if linesource:
-        linesource = linesource.strip()
-        msg_txt = msg_txt.format(" --> \"" + linesource + "\"")
+        linesource = " --> \"" + linesource.strip() + "\""
     else:
-        msg_txt = msg_txt.format("")
+        linesource = ""
+
+    msg_txt = "{} ({}:{}:{}{})".format(
+        msg.message, msg.filename, msg.lineno, msg.category.__name__,
+        linesource
+    )
 
     return msg_txt
 
-- 
2.43.0


From 0f736be81ce3bcd081a401a10aed5c38ae0d2e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:36 +0000
Subject: [PATCH 84/88] fix: accept sorted arrays in the sortedness checks

---
 src/triumvirate/_arrayops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/_arrayops.py b/src/triumvirate/_arrayops.py
index 4c1c48a..9346f63 100644
--- a/src/triumvirate/_arrayops.py
+++ b/src/triumvirate/_arrayops.py
@@ -122,7 +122,7 @@ def _check_1d_array(a, check_sorted=False, check_epsign=False,
             )
 
     if check_sorted:
-        if (not np.all(a[:-1] <= a[1:])) or (not np.all(a[:-1] >= a[1:])):
+        if (not np.all(a[:-1] <= a[1:])) and (not np.all(a[:-1] >= a[1:])):
             raise OrderError("Input array is not a sorted sequence.")
     if check_epsign:
         _check_epsign(a)
@@ -211,7 +211,7 @@ def _check_2d_array(a, check_sorted=False, check_epsign=False,
                     not np.all([
                         np.all(a__row[:-1] <= a__row[1:]) for a__row in a_
                     ])
-                ) or (
+                ) and (
                     not np.all([
                         np.all(a__row[:-1] >= a__row[1:]) for a__row in a_
                     ])
-- 
2.43.0


From c039cec6a3a24dac71cdf462d03e3c06648c214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:55 +0000
Subject: [PATCH 85/88] fix: make the program's custom bins as many as
 requested

---
 src/triumvirate/main/triumvirate.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index 2df5139..9d9f68e 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -61,18 +61,27 @@ void _set_custom_bins(trv::Binning& _binning) {
 
   // Implement 'custom' binning scheme for 'config' space.
   double dbin_pad = 10.;
-  int nbin_pad = 5;
+  int nbin_pad = 6;  // including the first bin which is split into two
+
+  double bin_min = dbin_pad * (nbin_pad - 1);
+
+  if (_binning.num_bins <= nbin_pad || !(bin_min < _binning.bin_max)) {
+    throw trv::sys::InvalidParameterError(
+      "Custom binning must extend beyond the %d padded bins up to %.1f.",
+      nbin_pad, bin_min
+    );
+  }
 
   _binning.bin_edges.push_back(0.);
   _binning.bin_centres.push_back(0.5);
   _binning.bin_widths.push_back(1.);
 
   _binning.bin_edges.push_back(1.);
-  _binning.bin_centres.push_back(5.);
+  _binning.bin_centres.push_back(5.5);
   _binning.bin_widths.push_back(9.);
 
-  for (int ibin = 1; ibin < nbin_pad; ibin++) {
-    double edge_left = dbin_pad * ibin;
+  for (int ibin = 2; ibin < nbin_pad; ibin++) {
+    double edge_left = dbin_pad * (ibin - 1);
     double centre = edge_left + dbin_pad / 2.;
 
     _binning.bin_edges.push_back(edge_left);
@@ -80,8 +89,6 @@ void _set_custom_bins(trv::Binning& _binning) {
     _binning.bin_widths.push_back(dbin_pad);
   }
 
-  double bin_min = dbin_pad * nbin_pad;
-
   double dlnbin = (std::log(_binning.bin_max) - std::log(bin_min))
     / double(_binning.num_bins - nbin_pad);
 
-- 
2.43.0


From 1ad28b6ae510b87f96f256743ee87b10ac86ef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:20 +0000
Subject: [PATCH 86/88] fix: allocate the mesh of two-point statistics without
 FFTW plans of their own

---
 src/triumvirate/src/field.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 5a3a40f..9a5f96d 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -2157,9 +2157,17 @@ FieldStats::FieldStats(trv::ParameterSet& params, bool plan_ini){
   this->vol = this->params.volume;
   this->vol_cell = this->vol / double(this->params.nmesh);
 
+  // Initialise the two-point mesh (also needed with external FFTW plans).
+  this->twopt_3d = fftw_alloc_complex(this->params.nmesh);
+
+  trvs::count_cgrid += 1;
+  trvs::count_grid += 1;
+  trvs::update_maxcntgrid();
+  trvs::gbytesMem += trvs::size_in_gb<fftw_complex>(this->params.nmesh);
+  trvs::update_maxmem();
+
   // Set up FFTW plans.
   if (plan_ini) {
-    this->twopt_3d = fftw_alloc_complex(this->params.nmesh);
 #ifdef TRV_USE_HIP
     if (trvs::is_gpu_enabled()) {
       HIP_EXEC(hipMalloc(
@@ -2171,12 +2179,6 @@ FieldStats::FieldStats(trv::ParameterSet& params, bool plan_ini){
     }
 #endif  // TRV_USE_HIP
 
-    trvs::count_cgrid += 1;
-    trvs::count_grid += 1;
-    trvs::update_maxcntgrid();
-    trvs::gbytesMem += trvs::size_in_gb<fftw_complex>(this->params.nmesh);
-    trvs::update_maxmem();
-
 #if defined(TRV_USE_OMP) && defined(TRV_USE_FFTWOMP)
     fftw_plan_with_nthreads(omp_get_max_threads());
 #endif  // TRV_USE_OMP && TRV_USE_FFTWOMP
@@ -2299,14 +2301,14 @@ FieldStats::~FieldStats() {
     } else {
       fftw_destroy_plan(this->inv_transform);
     }
+  }
 
-    if (this->twopt_3d != nullptr) {
-      fftw_free(this->twopt_3d);
-      this->twopt_3d = nullptr;
-      trvs::count_cgrid -= 1;
-      trvs::count_grid -= 1;
-      trvs::gbytesMem -= trvs::size_in_gb<fftw_complex>(this->params.nmesh);
-    }
+  if (this->twopt_3d != nullptr) {
+    fftw_free(this->twopt_3d);
+    this->twopt_3d = nullptr;
+    trvs::count_cgrid -= 1;
+    trvs::count_grid -= 1;
+    trvs::gbytesMem -= trvs::size_in_gb<fftw_complex>(this->params.nmesh);
   }
 }
 
-- 
2.43.0


From 71c106878a2d94edcd0586d9356cf179cfcf5361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:18 +0000
Subject: [PATCH 87/88] fix: expand environment variables in file paths before
 testing whether they are absolute

---
 src/triumvirate/src/parameters.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 9978110..33d1df1 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -531,10 +531,10 @@ int ParameterSet::validate(bool init) {
       ) {
         data_ctlg_file_ = data_ctlg_files.substr(0, dlpos);
         data_ctlg_files.erase(0, dlpos + trvs::fn_delimiter.length());
+        trvs::expand_envar_in_path(data_ctlg_file_);
         if (data_ctlg_file_.rfind("/", 0) != 0 && init) {
           data_ctlg_file_ = this->catalogue_dir + data_ctlg_file_;
         }  // transmutation
-        trvs::expand_envar_in_path(data_ctlg_file_);
         this->data_catalogue_files.push_back(data_ctlg_file_);
       }
       // if (this->data_catalogue_files.empty()) {
@@ -553,10 +553,10 @@ int ParameterSet::validate(bool init) {
       ) {
         rand_ctlg_file_ = rand_ctlg_files.substr(0, dlpos);
         rand_ctlg_files.erase(0, dlpos + trvs::fn_delimiter.length());
+        trvs::expand_envar_in_path(rand_ctlg_file_);
         if (rand_ctlg_file_.rfind("/", 0) != 0 && init) {
           rand_ctlg_file_ = this->catalogue_dir + rand_ctlg_file_;
         }  // transmutation
-        trvs::expand_envar_in_path(rand_ctlg_file_);
         this->rand_catalogue_files.push_back(rand_ctlg_file_);
       }
       // if (this->rand_catalogue_files.empty()) {
@@ -578,10 +578,10 @@ int ParameterSet::validate(bool init) {
       ) {
         rand_ctlg_file_ = rand_ctlg_files.substr(0, dlpos);
         rand_ctlg_files.erase(0, dlpos + trvs::fn_delimiter.length());
+        trvs::expand_envar_in_path(rand_ctlg_file_);
         if (rand_ctlg_file_.rfind("/", 0) != 0 && init) {
           rand_ctlg_file_ = this->catalogue_dir + rand_ctlg_file_;
         }  // transmutation
-        trvs::expand_envar_in_path(rand_ctlg_file_);
         this->rand_catalogue_files.push_back(rand_ctlg_file_);
       }
       // if (this->rand_catalogue_files.empty()) {
@@ -602,10 +602,10 @@ int ParameterSet::validate(bool init) {
       ) {
         data_ctlg_file_ = data_ctlg_files.substr(0, dlpos);
         data_ctlg_files.erase(0, dlpos + trvs::fn_delimiter.length());
+        trvs::expand_envar_in_path(data_ctlg_file_);
         if (data_ctlg_file_.rfind("/", 0) != 0 && init) {
           data_ctlg_file_ = this->catalogue_dir + data_ctlg_file_;
         }  // transmutation
-        trvs::expand_envar_in_path(data_ctlg_file_);
         this->data_catalogue_files.push_back(data_ctlg_file_);
       }
       // if (this->data_catalogue_files.empty()) {
@@ -1053,6 +1053,7 @@ int ParameterSet::validate(bool init) {
   } else
   if (this->save_binned_vectors != "") {
     // Check whether path is absolute.
+    trvs::expand_envar_in_path(this->save_binned_vectors);
     if (this->save_binned_vectors.rfind("/", 0) != 0 && init) {
       this->save_binned_vectors = this->measurement_dir
         + this->save_binned_vectors;
-- 
2.43.0


From b2036c671b39e3a0f1542fcd4a92a283eae962f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:18 +0000
Subject: [PATCH 88/88] fix: refuse an unwritable file of binned vectors
 instead of crashing

---
 src/triumvirate/src/field.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 9a5f96d..bd562bc 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -2552,6 +2552,18 @@ OMP_CRITICAL
   // Save the binned vectors.
   if (save_file != "") {
     std::FILE* save_fileptr = std::fopen(save_file.c_str(), "w");
+    if (save_fileptr == nullptr) {
+      if (trvs::currTask == 0) {
+        trvs::logger.error(
+          "Non-existent or unwritable binned-vectors file path: %s",
+          save_file.c_str()
+        );
+      }
+      throw trvs::IOError(
+        "Non-existent or unwritable binned-vectors file path: %s",
+        save_file.c_str()
+      );
+    }
     trv::io::print_binned_vectors_to_file(
       save_fileptr, this->params, binned_vectors_sorted
     );
-- 
2.43.0

