From 0ef994586634499e61dc9662a41bf2a6964e084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:26 +0000
Subject: [PATCH 01/26] fix: out-of-bounds read of phi12 at the last turn of
 kick_and_drift

kick_and_drift indexes phi12 with turn = nturns, the scalar wrapper allocated only nturns elements.
---
 longitudinal_tomography/cpp_routines/libtomo.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index 84f75d7..ddddb2d 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -211,11 +211,12 @@ py::tuple wrapper_kick_and_drift_scalar(
         const bool ftn_out,
         const std::optional<const py::object> callback
 ) {
-    real_t *ptr_phi12 = new real_t[nturns];
-    std::fill_n(ptr_phi12, nturns, phi12);
+    // The tracking reads phi12 at every turn from 0 to nturns, both included
+    real_t *ptr_phi12 = new real_t[nturns + 1];
+    std::fill_n(ptr_phi12, nturns + 1, phi12);
 
     py::capsule capsule(ptr_phi12, [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
-    real_Tarr arr_phi12({nturns}, ptr_phi12, capsule);
+    real_Tarr arr_phi12({nturns + 1}, ptr_phi12, capsule);
 
     wrapper_kick_and_drift_array(input_xp, input_yp, input_denergy, input_dphi, input_rf1v, input_rf2v, input_phi0,
                                  input_deltaE0,
-- 
2.43.0


From 11ef638789a8b24baccc119eca0893357b12477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:26 +0000
Subject: [PATCH 02/26] fix: native reconstruction projected on top of the
 previous iteration

project() accumulates, but flat_rec was never cleared between iterations, so the reconstructed
profiles, the differences and the discrepancies contained the profiles of earlier iterations.
The Python routines start every projection from zero.
---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 65188f7..396490f 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -402,6 +402,7 @@ void reconstruct(real_t *weights,             // out
             if (verbose)
                 std::cout << std::setw(3) << iteration + 1 << std::endl;
 
+            std::memset(flat_rec, 0, all_bins * sizeof(real_t));
             project(flat_rec, flat_points, weights, npart, nprof);
             normalize(flat_rec, nprof, nbins);
 
@@ -421,6 +422,7 @@ void reconstruct(real_t *weights,             // out
         } //end for
 
         // Calculating final discrepancy
+        std::memset(flat_rec, 0, all_bins * sizeof(real_t));
         project(flat_rec, flat_points, weights, npart, nprof);
         normalize(flat_rec, nprof, nbins);
 
@@ -498,6 +500,7 @@ void reconstruct_multi(real_t *weights,             // out
             if (verbose)
                 std::cout << std::setw(3) << iteration + 1 << std::endl;
 
+            std::memset(flat_rec, 0, all_bins * sizeof(real_t));
             project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
             normalize(flat_rec, nprof, nbins);
             find_difference_profile(diff_prof, flat_rec, flat_profiles, all_bins);
@@ -518,6 +521,7 @@ void reconstruct_multi(real_t *weights,             // out
         } //end for
 
         // Calculating final discrepancy
+        std::memset(flat_rec, 0, all_bins * sizeof(real_t));
         project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
         normalize(flat_rec, nprof, nbins);
 
-- 
2.43.0


From 99b6d58904aeca295847b0b4a42b88a6963ee568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:26 +0000
Subject: [PATCH 03/26] fix: data race on the shared index of the reciprocal
 particle counts

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 396490f..14d7d24 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -273,11 +273,10 @@ void reciprocal_particles(real_t *rparts,    // out
             rparts[i] = 1.0;
 
     // Creating reciprocal
-    int idx;
     #pragma omp parallel for
     for (int i = 0; i < nprof; i++)
         for (int j = 0; j < nbins; j++) {
-            idx = i * nbins + j;
+            int idx = i * nbins + j;
             rparts[idx] = (real_t) max_bin_val / rparts[idx];
         }
 }
@@ -304,11 +303,10 @@ void reciprocal_particles_multi(real_t *rparts,   // out
             rparts[i] = 1.0;
 
     // Creating reciprocal
-    int idx;
     #pragma omp parallel for collapse(2)
     for (int i = 0; i < nprof; i++)
         for (int j = 0; j < nbins; j++) {
-            idx = i * nbins + j;
+            int idx = i * nbins + j;
             rparts[idx] = (double) max_bin_val / rparts[idx];
         }
 }
-- 
2.43.0


From 440f13d6ae4cc9ce8ff0b77ce31d120ec3bcb567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:26 +0000
Subject: [PATCH 04/26] fix: data race in count_particles_in_bin_multi

Particles of different bunches are counted in the same bins, and the bin index was shared.
---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 14d7d24..a7c1954 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -240,12 +240,10 @@ void count_particles_in_bin_multi(real_t *rparts,
                                   const int nbins,
                                   const int ncenters) {
 
-    int bin;
-    #pragma omp parallel for
     for (int c = 0; c < ncenters; c++) {
         for (int j = 0; j < npart; j++) {
             for (int i = 0; i < nprof; i++) {
-                bin = xpRound0[j * nprof + i] + centers[c];
+                int bin = xpRound0[j * nprof + i] + centers[c];
                 rparts[bin + i * nbins] += 1;
             }
         }
-- 
2.43.0


From 9be4699945adc427cc56f0bf4ec84545b573b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:26 +0000
Subject: [PATCH 05/26] fix: data race in back_project_multi

With the profile loop collapsed into the parallel loop, several threads update the weight of one particle.
---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index a7c1954..6728816 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -37,7 +37,7 @@ void back_project_multi(real_t *weights,                     // inn/out
                         const int npart,
                         const int nprof,
                         const int ncenter) {     // inn
-    #pragma omp parallel for collapse(3)
+    #pragma omp parallel for collapse(2)
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
-- 
2.43.0


From ae889e192f9c99c65c6092a8fc3c609c20870954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:26 +0000
Subject: [PATCH 06/26] fix: data race in project_multi

Particles of different bunches are projected on the same bins.
---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 6728816..a47eb7e 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -72,7 +72,6 @@ void project_multi(real_t *flat_rec,                     // inn/out
                    const int nprof,
                    const int ncenter) {      // inn
 
-    #pragma omp parallel for
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
-- 
2.43.0


From f5818b09aa38131f36a75b872293079a852c8e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:26 +0000
Subject: [PATCH 07/26] fix: data race on the shared bin index of create_mask

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index a47eb7e..37b6818 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -332,16 +332,14 @@ void create_mask(const int *xpRound0,       //inn
                  const int nprof,
                  const int ncenter) {
 
-    int bin;
-
-    #pragma omp parallel for collapse(3)
+    #pragma omp parallel for collapse(2)
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
         {
             for (int j = 0; j < nprof; j++)
             {
-                bin = xpRound0[i * nprof + j] + centers[c];
+                int bin = xpRound0[i * nprof + j] + centers[c];
                 if ((bin < cutleft[c]) || (bin > cutright[c])) {mask[i + c*npart] = false;}
             }
         }
-- 
2.43.0


From 8e3c2457b40a31a7c8bfc0d0ee51885147b7adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:26 +0000
Subject: [PATCH 08/26] fix: per-bunch discrepancy of the multi-bunch
 reconstruction

The sum of squares was shared between the bunches (and threads) without a reset, and flat indices over
all profiles were compared to cuts that are bin numbers, so only the first profile was considered.
---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 37b6818..af49ad3 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -156,16 +156,15 @@ void discrepancy_multi(const real_t *diff_prof,   // inn
                          const int nbins,
                          const int ncenter) {
 
-    int all_bins = nprof * nbins;
-    real_t squared_sum = 0;
     #pragma omp parallel for
     for (int c = 0; c < ncenter; c++)
     {
-        for (int i = 0; i < all_bins; i++)
+        real_t squared_sum = 0;
+        for (int i = 0; i < nprof; i++)
         {
-            if (i < cutright[c] && i > cutleft[c])
+            for (int j = cutleft[c]; j < cutright[c]; j++)
             {
-                squared_sum += std::pow(diff_prof[i], 2.0);
+                squared_sum += std::pow(diff_prof[i * nbins + j], 2.0);
             }
         }
         disc[iteration * ncenter + c] = std::sqrt(squared_sum / (nprof * (cutright[c] - cutleft[c])));
-- 
2.43.0


From 46cf4a97e6f43b3a9b60c228eb36c05ca16a61cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:26 +0000
Subject: [PATCH 09/26] fix: multi-bunch reconstruction only clipped and
 checked the weights of the first bunch

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index af49ad3..55ab32d 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -480,9 +480,9 @@ void reconstruct_multi(real_t *weights,             // out
         create_flat_points(xpRound0, flat_points, npart, nprof, nbins);
         back_project_multi(weights, flat_points, flat_profiles, mask, centers, npart, nprof, ncenter);
 
-        clip(weights, npart, 0.0);
+        clip(weights, npart*ncenter, 0.0);
 
-        if (sum(weights, npart) <= 0.)
+        if (sum(weights, npart*ncenter) <= 0.)
             throw std::runtime_error("All of phase space got reduced to zeroes");
 
         if (verbose)
@@ -506,7 +506,7 @@ void reconstruct_multi(real_t *weights,             // out
 
             clip(weights, npart*ncenter, 0.0);
 
-            if (sum(weights, npart) <= 0.)
+            if (sum(weights, npart*ncenter) <= 0.)
                 throw std::runtime_error("All of phase space got reduced to zeroes");
 
             callback(iteration + 1, niter);
-- 
2.43.0


From 71ddb124fcd31ae406bc890e93da30b38e5378db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:26 +0000
Subject: [PATCH 10/26] fix: make_phase_space wrote out of bounds for negative
 coordinates and leaked its image

Only the flat index was compared to the size of the image: negative coordinates wrote before the
buffer, and a y coordinate outside of the image could alias a neighbouring row. The buffer was
leaked when the exception was thrown.
---
 longitudinal_tomography/cpp_routines/data_treatment.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/data_treatment.cpp b/longitudinal_tomography/cpp_routines/data_treatment.cpp
index 1e62b60..e1018de 100644
--- a/longitudinal_tomography/cpp_routines/data_treatment.cpp
+++ b/longitudinal_tomography/cpp_routines/data_treatment.cpp
@@ -21,13 +21,14 @@
 template <typename real_t>
 real_t *make_phase_space(const int *const xp, const int *const yp, const real_t *const weight, const int n_particles,
                          const int n_bins) {
+    for (int i = 0; i < n_particles; i++)
+        if (xp[i] < 0 || xp[i] >= n_bins || yp[i] < 0 || yp[i] >= n_bins)
+            throw std::out_of_range("Index out of bounds");
+
     real_t *phase_space = new real_t[n_bins * n_bins]();
-    int n_bins2 = n_bins * n_bins;
 
     for (int i = 0; i < n_particles; i++) {
         int index = yp[i] + xp[i] * n_bins;
-        if (index >= n_bins2)
-            throw std::out_of_range("Index out of bounds");
         phase_space[index] += weight[i];
     }
 
-- 
2.43.0


From aa5d4152a25df9718b397982b7f5f2627247fa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:06 +0000
Subject: [PATCH 11/26] fix: keyword names of count_particles_in_bins were
 swapped

The bindings named the third argument n_particles and the fourth n_profiles, the functions take them the
other way around, so calls with keywords counted with the two numbers exchanged.
---
 longitudinal_tomography/cpp_routines/libtomo.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index ddddb2d..5326472 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -602,16 +602,16 @@ m.def("back_project", &wrapper_back_project, back_project_docs,
 "n_particles"_a, "n_profiles"_a);
 
 m.def("count_particles_in_bins", &wrapper_count_particles_in_bin<d_array, double>, count_particles_in_bin_docs,
-    "input_parts"_a, "input_xp"_a, "n_particles"_a, "n_profiles"_a, "n_bins"_a);
+    "input_parts"_a, "input_xp"_a, "n_profiles"_a, "n_particles"_a, "n_bins"_a);
 
 m.def("count_particles_in_bins", &wrapper_count_particles_in_bin<f_array, float>, count_particles_in_bin_docs,
-    "input_parts"_a, "input_xp"_a, "n_particles"_a, "n_profiles"_a, "n_bins"_a);
+    "input_parts"_a, "input_xp"_a, "n_profiles"_a, "n_particles"_a, "n_bins"_a);
 
 m.def("count_particles_in_bins_multi", &wrapper_count_particles_in_bin_multi<d_array, double>, count_particles_in_bin_docs,
-    "input_parts"_a, "input_xp"_a, "input_centers"_a, "n_particles"_a, "n_profiles"_a, "n_bins"_a, "n_centers"_a);
+    "input_parts"_a, "input_xp"_a, "input_centers"_a, "n_profiles"_a, "n_particles"_a, "n_bins"_a, "n_centers"_a);
 
 m.def("count_particles_in_bins_multi", &wrapper_count_particles_in_bin_multi<f_array, float>, count_particles_in_bin_docs,
-    "input_parts"_a, "input_xp"_a, "input_centers"_a, "n_particles"_a, "n_profiles"_a, "n_bins"_a, "n_centers"_a);
+    "input_parts"_a, "input_xp"_a, "input_centers"_a, "n_profiles"_a, "n_particles"_a, "n_bins"_a, "n_centers"_a);
 
 m.def("reconstruct", &wrapper_reconstruct<d_array, double>, reconstruct_docs,
 "xp"_a, "waterfall"_a, "n_iter"_a, "n_bins"_a, "n_particles"_a,
-- 
2.43.0


From eb331f8c4d97adee323b5bb9b3493316456bdab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:06 +0000
Subject: [PATCH 12/26] fix: frames below the initial distribution when it is
 given between two profiles

With deltaturn > 0 the downwards tracking started at the turn of the lower profile although the
distribution belongs deltaturn turns later (C++), or stored the coordinates one row too low (Python).
Tracking with self-fields ignored deltaturn, and the number of reported turns exceeded the reported total.
---
 .../cpp_routines/kick_and_drift.cpp                  |  9 ++++++++-
 longitudinal_tomography/tracking/tracking.py         | 12 ++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/kick_and_drift.cpp b/longitudinal_tomography/cpp_routines/kick_and_drift.cpp
index b3ff134..21fc2d1 100644
--- a/longitudinal_tomography/cpp_routines/kick_and_drift.cpp
+++ b/longitudinal_tomography/cpp_routines/kick_and_drift.cpp
@@ -143,7 +143,7 @@ void kick_and_drift(real_t **xp,             // inn/out
     }
 
     int progress = 0;
-    const int total = nturns;
+    const int total = deltaturn < 0 ? nturns - deltaturn : nturns;
     // Upwards 
     while (turn < nturns) {
         drift_up<real_t>(dphi, denergy, drift_coef[turn], nparts);
@@ -173,6 +173,13 @@ void kick_and_drift(real_t **xp,             // inn/out
     profile = rec_prof;
     turn = rec_prof * dturns;
 
+    // Distribution given between two profiles: the lower one is reached by
+    // tracking downwards
+    if (deltaturn > 0) {
+        profile++;
+        turn += deltaturn;
+    }
+
     if (profile > 0) {
 
         // Going back to initial coordinates
diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 91dc3f7..a915dba 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -196,7 +196,7 @@ class Tracking(ParticleTracker):
             denergy = np.ascontiguousarray(denergy)
             dphi = np.ascontiguousarray(dphi)
             xp, yp = self.kick_and_drift_self(
-                denergy, dphi, rfv1, rfv2, recprof)
+                denergy, dphi, rfv1, rfv2, recprof, deltaturn)
         else:
             # Tracking without self-fields
             nparts = len(dphi)
@@ -294,6 +294,9 @@ class Tracking(ParticleTracker):
         turn = rec_turn
         profile = rec_prof
 
+        if deltaturn > 0:
+            profile += 1
+
         # Tracking 'downwards'
         while turn > 0:
             # Calculating change in energy for each particle at a turn
@@ -379,12 +382,13 @@ class Tracking(ParticleTracker):
         dphi0 = np.copy(dphi)
         denergy0 = np.copy(denergy)
 
-        xp[rec_prof] = self._calc_xp_sf(
+        init_xp = self._calc_xp_sf(
             dphi, self.machine.phi0[rec_turn],
             self.particles.xorigin, self.machine.h_num,
             self.machine.omega_rev0[rec_turn],
             self.machine.dtbin, self._phiwrap)
 
+        xp[rec_prof] = init_xp
         yp[rec_prof] = (denergy / self.particles.dEbin
                         + self.machine.synch_part_y)
 
@@ -419,9 +423,9 @@ class Tracking(ParticleTracker):
         dphi = dphi0
         denergy = denergy0
         turn = rec_turn
-        profile = rec_prof - 1
+        profile = rec_prof if deltaturn > 0 else rec_prof - 1
 
-        temp_xp = xp[rec_prof]
+        temp_xp = init_xp
 
         while turn > 0:
             selfvolt = self._vself[profile, temp_xp.astype(int)]
-- 
2.43.0


From 40b9dee9a85f8f2a29ca66e98030aaa866c86515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:06 +0000
Subject: [PATCH 13/26] fix: deprecated kick_and_drift wrapper shifted its
 arguments

libtomo.kick_and_drift takes deltaturn between rec_prof and nturns; without it the number of turns was
taken for the turn offset and the number of particles for the number of turns.
---
 longitudinal_tomography/cpp_routines/tomolib_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/tomolib_wrappers.py b/longitudinal_tomography/cpp_routines/tomolib_wrappers.py
index 879083a..1529ea7 100644
--- a/longitudinal_tomography/cpp_routines/tomolib_wrappers.py
+++ b/longitudinal_tomography/cpp_routines/tomolib_wrappers.py
@@ -203,12 +203,12 @@ ftn_out: boolean, optional, default=False
 
     if machine is not None:
         return libtomo.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2,
-                                      machine, rec_prof, nturns, nparts,
+                                      machine, rec_prof, 0, nturns, nparts,
                                       ftn_out)
     elif all([x is not None for x in machine_args]):
         return libtomo.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2,
                                       phi0, deltaE0, drift_coef, phi12,
-                                      h_ratio, dturns, rec_prof, nturns,
+                                      h_ratio, dturns, rec_prof, 0, nturns,
                                       nparts, ftn_out)
     else:
         raise expt.InputError(
-- 
2.43.0


From abc5bd95cd606ecfd57c22408b1e779a40e6f8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:06 +0000
Subject: [PATCH 14/26] fix: density_to_macro modified the density of the
 caller

---
 longitudinal_tomography/data/data_treatment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/longitudinal_tomography/data/data_treatment.py b/longitudinal_tomography/data/data_treatment.py
index 9b90104..813c57d 100644
--- a/longitudinal_tomography/data/data_treatment.py
+++ b/longitudinal_tomography/data/data_treatment.py
@@ -261,9 +261,8 @@ def density_to_macro(tRange: Iterable[float], ERange: Iterable[float],
     dEbin = ERange[1] - ERange[0]
 
     sumDens = np.sum(density)
-    density[density / sumDens < threshold] = 0
-
     prob = density.flatten()
+    prob[prob / sumDens < threshold] = 0
     prob = prob / np.sum(prob)
     coords = np.array(list(itl.product(tRange, ERange)))
     n_macro = int(n_macro)
-- 
2.43.0


From f3fd86ca917ce5a98245524c4597c732358403c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:06 +0000
Subject: [PATCH 15/26] fix: show normalised the profile of the caller in place

---
 longitudinal_tomography/utils/tomo_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/tomo_output.py b/longitudinal_tomography/utils/tomo_output.py
index 9f0bdc0..7213209 100644
--- a/longitudinal_tomography/utils/tomo_output.py
+++ b/longitudinal_tomography/utils/tomo_output.py
@@ -131,7 +131,7 @@ def show(image: np.ndarray, diff: np.ndarray, rec_prof: np.ndarray,
     """
 
     # Normalizing recprof:
-    rec_prof[:] /= np.sum(rec_prof)
+    rec_prof = rec_prof / np.sum(rec_prof)
 
     # Creating plot
     gs = gridspec.GridSpec(4, 4)
-- 
2.43.0


From 06ee4861bf09ff57ce2b59108598bf1fa6e20625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:25 +0000
Subject: [PATCH 16/26] fix: array assertions never reported the offending
 index

'log_array_ok is False' compares the array object, not its elements.
---
 longitudinal_tomography/assertions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/assertions.py b/longitudinal_tomography/assertions.py
index adae17c..854f2e0 100644
--- a/longitudinal_tomography/assertions.py
+++ b/longitudinal_tomography/assertions.py
@@ -434,7 +434,7 @@ def _assert_log_arr(log_array_ok: np.ndarray, error_class: Type[Exception],
     if not log_array_ok.all():
         error_msg = '\nError found at index: ' \
                     '{}\n'.format(
-                        np.argwhere(log_array_ok is False).flatten()
+                        np.argwhere(np.logical_not(log_array_ok)).flatten()
                         + index_offset
                     )
         raise error_class(error_msg + msg)
-- 
2.43.0


From a1d033cb66e767a6f15c9a43007e85ab196f45f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:25 +0000
Subject: [PATCH 17/26] fix: multi-bunch particle count of the hybrid routine
 read transposed coordinates

count_particles_in_bins_multi expects the coordinates as (nparts, nprofiles), the shape of xp.
---
 longitudinal_tomography/tomography/__tomography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tomography/__tomography.py b/longitudinal_tomography/tomography/__tomography.py
index 0dc3432..50cc241 100644
--- a/longitudinal_tomography/tomography/__tomography.py
+++ b/longitudinal_tomography/tomography/__tomography.py
@@ -263,7 +263,7 @@ class TomographyABC(ABC):
         # for c in centers:
         #     ppb = self._count_particles_in_bins(
         #         ppb, self.nprofs, self.xp+int(np.floor(c)), self.nparts)
-        ppb = libtomo.count_particles_in_bins_multi(ppb, self.xp.T, centers,
+        ppb = libtomo.count_particles_in_bins_multi(ppb, self.xp, centers,
                                                     self.nprofs, self.nparts,
                                                     self.nbins, len(centers))
 
-- 
2.43.0


From 126abab54d9d4771dbb0b26fd8cc1035dc109965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:45 +0000
Subject: [PATCH 18/26] fix: run ignored the self-field flag of the input

The flag of a new Tracking object is always False, so self-fields requested in the input were never tracked.
---
 longitudinal_tomography/utils/tomo_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/tomo_run.py b/longitudinal_tomography/utils/tomo_run.py
index db2dfce..484edcd 100644
--- a/longitudinal_tomography/utils/tomo_run.py
+++ b/longitudinal_tomography/utils/tomo_run.py
@@ -106,7 +106,7 @@ def run(input: str, reconstruct_profile: bool = None,
     if tomoscope:
         tracker.enable_fortran_output(profiles.profile_charge)
 
-    if tracker.self_field_flag:
+    if machine.self_field_flag:
         profiles.calc_self_fields()
         tracker.enable_self_fields(profiles)
 
-- 
2.43.0


From e9167c3b410dfc7936688000f925214e26f33378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:45 +0000
Subject: [PATCH 19/26] fix: two package exceptions could not be caught as
 TomoException

---
 longitudinal_tomography/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/exceptions.py b/longitudinal_tomography/exceptions.py
index 741b4bd..35cec1b 100644
--- a/longitudinal_tomography/exceptions.py
+++ b/longitudinal_tomography/exceptions.py
@@ -5,7 +5,7 @@ class TomoException(Exception):
 # CUDA Compilation Exception
 # ==========================
 
-class CudaCompilationException(Exception):
+class CudaCompilationException(TomoException):
     pass
 
 # ================
@@ -61,7 +61,7 @@ class ArgumentError(TomoException, ValueError):
     pass
 
 
-class NegativeIndexError(IndexError):
+class NegativeIndexError(TomoException, IndexError):
     pass
 
 # ===========================
-- 
2.43.0


From 289a8ddfbbf4f000113363b73438c9d3c4207579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:56 +0000
Subject: [PATCH 20/26] fix: self-field voltage of the wrong bin in the forward
 tracking

The forward tracking used the voltage of the bin below the one of the particle (and of the last bin for
particles in the first one), the backward tracking that of the bin the particle is in.
---
 longitudinal_tomography/tracking/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index a915dba..91c8d8a 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -406,7 +406,7 @@ class Tracking(ParticleTracker):
                                        self.machine.omega_rev0[turn],
                                        self.machine.dtbin,
                                        self._phiwrap)
-            selfvolt = self._vself[profile, temp_xp.astype(int) - 1]
+            selfvolt = self._vself[profile, temp_xp.astype(int)]
 
             denergy = libtomo.kick(self.machine, denergy, dphi, rf1v, rf2v,
                                    nparts, turn)
-- 
2.43.0


From e338a35e9bcc771d32ccdf2939bfeb2a2bff6165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:56 +0000
Subject: [PATCH 21/26] fix: backward tracking with self-fields added the
 self-field kick instead of undoing it

---
 longitudinal_tomography/tracking/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 91c8d8a..8d7ddb4 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -433,7 +433,7 @@ class Tracking(ParticleTracker):
             denergy = libtomo.kick(self.machine, denergy, dphi, rf1v, rf2v,
                                    nparts, turn, up=False)
 
-            denergy += selfvolt * self.machine.q
+            denergy -= selfvolt * self.machine.q
 
             turn -= 1
 
-- 
2.43.0


From 0b0a7f7f89d7303c6709ba9db29b2febdf329d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:48 +0000
Subject: [PATCH 22/26] fix: potential of the bunch mixed the RF voltages of
 two turns

phase_low_mch took the voltages and the relative phase at the turn whose number is the machine
reference frame, while the synchronous phase and the derivative (dphase_low_mch) belong to rf_turn.
With a changing voltage the synchronous particle was fitted with the wrong bucket.
---
 longitudinal_tomography/utils/physics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/physics.py b/longitudinal_tomography/utils/physics.py
index b8a6a89..f9f3736 100644
--- a/longitudinal_tomography/utils/physics.py
+++ b/longitudinal_tomography/utils/physics.py
@@ -526,7 +526,7 @@ def phase_low_mch(phase: float, machine: 'MachineABC',
 
     return phase_low(phase, bunch_phaselength, machine.vrf1_at_turn,
                      machine.vrf2_at_turn, machine.phi0, machine.h_ratio,
-                     machine.phi12, rf_turn, machine.machine_ref_frame)
+                     machine.phi12, rf_turn, rf_turn)
 
 
 def dphase_low_mch(phase: float, machine: 'MachineABC',
-- 
2.43.0


From 8fe89dcec355b813e0e319b77a74c0d503f27501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:48 +0000
Subject: [PATCH 23/26] fix: kernels kept the precision of the first use_gpu

A precision set while the CPU was in use did not reach the kernels of the existing GPU device,
which then read arrays of the new precision with kernels of the old one.
---
 longitudinal_tomography/utils/tomo_config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/longitudinal_tomography/utils/tomo_config.py b/longitudinal_tomography/utils/tomo_config.py
index edfd5cb..9a177a6 100644
--- a/longitudinal_tomography/utils/tomo_config.py
+++ b/longitudinal_tomography/utils/tomo_config.py
@@ -90,6 +90,9 @@ class AppConfig:
 
         from longitudinal_tomography.python_routines import kick_and_drift_cuda, reconstruct_cuda, data_treatment
 
+        # The device may exist already, with kernels of another precision
+        cls.load_modules_and_refresh_kernels(single_prec)
+
         gpu_func_dict = {
             'kick_and_drift': kick_and_drift_cuda.kick_and_drift_cuda,
             'reconstruct': reconstruct_cuda.reconstruct_cuda,
-- 
2.43.0


From 4b482b7f894923aa1c1152a82fecacd09f46a682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 24/26] fix: upper foot of the tangent fit used another factor
 than the lower one

---
 longitudinal_tomography/utils/tomographics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index 828a7f5..26d0170 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -124,7 +124,7 @@ def foot_tangent_fit(y: Iterable[float], dx: float = 1) -> Tuple[float, float]:
 
     foot_left = left_index - 5*np.sum(y_left)/(-6*y_left[0] - 2*y_left[1]
                                                +2*y_left[2] + 6*y_left[3])
-    foot_right = right_index - 6*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
+    foot_right = right_index - 5*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
                                                   +2*y_right[2] + 6*y_right[3])
 
     return foot_left * dx, foot_right * dx
@@ -147,7 +147,7 @@ def foot_tangent_fit_density(y: Iterable[float], x: Iterable[float],
 
     y_right = y_zero[right_index - 2:right_index + 2]
 
-    foot_right = right_index - 6*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
+    foot_right = right_index - 5*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
                                                   +2*y_right[2] + 6*y_right[3])
 
     foot_density = np.interp(foot_right, np.arange(len(x)), x)
-- 
2.43.0


From 7ec6270082d90f5ba5890eb9374d2c702dc9695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 25/26] fix: weight clipping failed for time bins with a single
 particle

---
 longitudinal_tomography/utils/tomographics.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index 26d0170..d17d0c9 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -613,9 +613,7 @@ def tomo_weight_clipping(tomomachine: MachineABC, time_array: Iterable[float],
             idx_minmax = np.append(idx_minmax, idx_max)
 
         elif len(idx_in) == 1:
-            idx_minmax.append(np.where(map_tomo_y
-                                       == np.max(map_tomo_y[idx_in,
-                                                            idx_frame]))[0][0])
+            idx_minmax = np.append(idx_minmax, idx_in[0])
 
     new_weight_tomo = (new_weight_tomo
                        / np.sum(new_weight_tomo)
-- 
2.43.0


From 900c1c59b6628e4db621afb2b6a1eea85ca8640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 26/26] fix: rms_params confused the axes of images that are
 not square

---
 longitudinal_tomography/utils/tomographics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index d17d0c9..cd721d9 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -323,8 +323,8 @@ def rms_params(tomo_image: Iterable[float], dt: float, dE: float)\
         RMS emittance, mean dt, RMS dt, mean dE and RMS dE.
     """
 
-    y_matrix_tomo1, x_matrix_tomo1 = np.meshgrid(np.arange(tomo_image.shape[0]),
-                                                 np.arange(tomo_image.shape[1]))
+    y_matrix_tomo1, x_matrix_tomo1 = np.meshgrid(np.arange(tomo_image.shape[1]),
+                                                 np.arange(tomo_image.shape[0]))
     xbar = np.sum(tomo_image * x_matrix_tomo1)
     xms = np.sum(tomo_image * x_matrix_tomo1**2.)
     ybar = np.sum(tomo_image * y_matrix_tomo1)
@@ -338,7 +338,7 @@ def rms_params(tomo_image: Iterable[float], dt: float, dE: float)\
     mean_dt = xbar * dt
     sigma_dt = np.sqrt(xms - xbar**2.) * dt
 
-    mean_dE = (ybar - tomo_image.shape[0]/2) * dE
+    mean_dE = (ybar - tomo_image.shape[1]/2) * dE
     sigma_dE = np.sqrt(yms - ybar**2.) * dE
 
     return rmsemittance, mean_dt, sigma_dt, mean_dE, sigma_dE
-- 
2.43.0

