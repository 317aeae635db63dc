From c82206366a2f615682faeb62843d7a3f1eedea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 01/85] fix: open series of one match-up with a structured +
 systematic covariate

The systematic uncertainty was read from the second match-up.
---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index a2ee994..32e633c 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -377,7 +377,7 @@ class MatchUpReader:
                         u_matrices[u_matrix_idx] = self._open_u_matrix(dataset, u_j)
 
                         unc[block_idx] = Uncertainty(4, (w_matrix_idx, u_matrix_idx,
-                                                         dataset.variables['Us' + str(i_sensor_pair + 1)][1, i_cov]))
+                                                         dataset.variables['Us' + str(i_sensor_pair + 1)][0, i_cov]))
 
         # Determine separate instances of systematic errors
         sys_indices = []
-- 
2.43.0


From ea60a3271deaf5cd643dd47046f4de48328a23de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 02/85] fix: open the match-up files of a list of directories
 in name order

As for a single directory; files that are no match-up files are left out.
---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index 32e633c..b12a4d4 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -182,7 +182,8 @@ class MatchUpReader:
                 dirs_matchup = paths_matchup
                 paths_matchup = []
                 for dir_matchup in dirs_matchup:
-                    paths_matchup += [pjoin(dir_matchup, fname) for fname in listdir(dir_matchup)]
+                    paths_matchup += sorted([pjoin(dir_matchup, fname)
+                                             for fname in listdir(dir_matchup) if fname[-3:] == ".nc"])
             else:
                 return None
 
-- 
2.43.0


From 66f6e7a2bbd5fb71b5d2f228757a0b7fda01faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 03/85] fix: read a sensor's adjustment model under the name
 that is looked for

A sensor with an "adjustment_model" raised a KeyError.
---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index b12a4d4..7cae8ae 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -604,7 +604,7 @@ class MatchUpReader:
             sensor_model.append(sensor_data[sensor]["sensor_model"])
 
             if "adjustment_model" in sensor_data[sensor].keys():
-                adjustment_model.append(sensor_data[sensor]["sensor_adjustment_model"])
+                adjustment_model.append(sensor_data[sensor]["adjustment_model"])
             else:
                 adjustment_model.append(self._default_adjustment_model)
 
-- 
2.43.0


From a78fa53895ed88a17df305e715f96c98352c4433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 04/85] fix: sample match-ups from lists

random.sample takes no arrays, so sampling a series down raised a TypeError.
---
 .../core/matchup/matchupProcessing/sample2ind/Sample2Ind.py   | 4 ++--
 .../matchupProcessing/sample2ind/cython_lib_sample2ind.pyx    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
index ade2f5c..4aa83ab 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
@@ -104,12 +104,12 @@ class Sample2Ind:
 
                 # If more match ups sampled than maximum randomly reduce to required amount
                 if len(idxs) > mu_samples:
-                    idxs = sorted(sample(idxs, mu_samples))
+                    idxs = sorted(sample(list(idxs), mu_samples))
             # ----------------------------------------------------------------------------------------------------------
 
             # b. If no w matrices present free to sample randomly ------------------------------------------------------
             else:
-                idxs = sorted(sample(arange(mu_total), mu_samples))
+                idxs = sorted(sample(list(arange(mu_total)), mu_samples))
             # ----------------------------------------------------------------------------------------------------------
 
             sampling_idxs[n_mu] = idxs       # add match up sample indices to dictionary
diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/cython_lib_sample2ind.pyx b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/cython_lib_sample2ind.pyx
index b1ba4d5..2e9986a 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/cython_lib_sample2ind.pyx
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/cython_lib_sample2ind.pyx
@@ -56,5 +56,5 @@ def get_sample_idxs(int[:] w_indices_mu, int mu_samples, list w_matrices):
 
     # If more match ups sampled than maximum randomly reduce to required amount
     if len(idxs) > mu_samples:
-        return sample(idxs, mu_samples)
+        return sample(list(idxs), mu_samples)
     return idxs
\ No newline at end of file
-- 
2.43.0


From 434c40bfed925f04589c8a28ff7c64c7bf88f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 05/85] fix: return derivatives of the measurand

---
 .../core/matchup/matchupToolbox/utils/matchup_maths.py    | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
index db903d5..f03bf3f 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
@@ -72,13 +72,7 @@ def evaluate_measurand(MatchUpData, matchup_series=0, sensor_name=0, return_deri
     measurand = zeros((selection_cNm[-1], 2), dtype=float32)
     measurand_derivatives = None
     if return_derivatives:
-        measurand_derivatives = [[zeros((selection_cNm[-1],
-                                         MatchUpData.idx['sensor_ms'][Im[0]]+MatchUpData.idx['sensor_a'][Im[0]]),
-                                        dtype=float32),
-                                  zeros((selection_cNm[-1],
-                                         MatchUpData.idx['sensor_ms'][Im[1]]+MatchUpData.idx['sensor_a'][Im[1]]),
-                                        dtype=float32)]
-                                  for Im in MatchUpData.idx['Im']]
+        measurand_derivatives = [[None, None] for Im in MatchUpData.idx['Im']]
 
     u_measurand = None
     if parameter_covariance_matrix is not None:
-- 
2.43.0


From 35adb018570516b1c416d0e73c8e62110d869689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 06/85] fix: return uncertainties of the measurand

---
 .../core/matchup/matchupToolbox/utils/matchup_maths.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
index f03bf3f..f3f31e9 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
@@ -129,20 +129,20 @@ def evaluate_measurand(MatchUpData, matchup_series=0, sensor_name=0, return_deri
                     loc_a = array([True if s == sensor_name else False for s in MatchUpData.idx['parameter_sensor']])
                     loc_a_arr = outer(loc_a.T, loc_a)
                     V = parameter_covariance_matrix[loc_a_arr]
-                    V = V.reshape((len(V)**0.5, len(V)**0.5))
+                    V = V.reshape((sum(loc_a), sum(loc_a)))
 
                     u_measurand[i_start_m:i_end_m, i_sensor_pair] = (diag(J[:, m:].dot(V).dot(J[:, m:].T))) ** 0.5
 
                     pass
 
-    if return_derivatives:
-        return measurand, measurand_derivatives
-
     if u_measurand is not None:
         if return_derivatives:
             return measurand, measurand_derivatives, u_measurand
         return measurand, u_measurand
 
+    if return_derivatives:
+        return measurand, measurand_derivatives
+
     return measurand
 
 
-- 
2.43.0


From b0e91b7280f4b416c6723cfe28361c619637b68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 07/85] fix: evaluate the selected match-up series in the order
 they are given

---
 .../core/matchup/matchupToolbox/utils/matchup_maths.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
index f3f31e9..26eb284 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
@@ -57,7 +57,7 @@ def evaluate_measurand(MatchUpData, matchup_series=0, sensor_name=0, return_deri
         matchup_series = [matchup_series]
 
     # b. Determine idxs of selected measurands
-    selection_Nm = [m for i, m in enumerate(MatchUpData.idx['Nm']) if i+1 in matchup_series]
+    selection_Nm = [MatchUpData.idx['Nm'][n_mu - 1] for n_mu in matchup_series]
     selection_cNm = [0]
     total = 0
     for m in selection_Nm:
@@ -182,7 +182,7 @@ def evaluate_adjusted_measurand(MatchUpData, matchup_series=0, return_derivative
         matchup_series = [matchup_series]
 
     # b. Determine idxs of selected measurands
-    selection_Nm = [m for i, m in enumerate(MatchUpData.idx['Nm']) if i+1 in matchup_series]
+    selection_Nm = [MatchUpData.idx['Nm'][n_mu - 1] for n_mu in matchup_series]
     selection_cNm = [0]
     total = 0
     for m in selection_Nm:
-- 
2.43.0


From 2a363d86dcd04f9f4d7cd86948f4d71624840268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 08/85] fix: take all match-ups of the HIRS reference measurand

---
 .../harmonisation/sensor_data/HIRS/HIRS_sensor_models.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
index 26c8a5d..c0987bb 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
@@ -59,7 +59,7 @@ def sensor_model_ref(sensor_model_variables, sensor_model_parameter, sensor_mode
         Measurement model derivatives w.r.t. input quantities
     """
 
-    R = sensor_model_variables[0]
+    R = sensor_model_variables[:, 0]
 
     return R, None
 
-- 
2.43.0


From 0ecc7ad12957dba54d9edb039ffac2bde31875a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 09/85] fix: derivative of the HIRS measurand with respect to
 T_ICT

---
 .../harmonisation/sensor_data/HIRS/HIRS_sensor_models.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
index c0987bb..a35fd2d 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
@@ -123,7 +123,7 @@ def sensor_model_3(sensor_model_variables, sensor_model_parameter, sensor_model_
                       -at[1] * Rict * (Ce - Cs) / (Cict - Cs) ** 2 - at[2] * (Ce - Cs),
                       at[1] * Rict / (Cict - Cs) + at[2] * (2 * Ce - Cs - Cict),
                       (at[1] * (Ce - Cs) / (Cict - Cs)) *
-                      Rict * planck_exp / (planck_exp-1.0) * (2.0*H*v*b) / (KB*(a+b*Tict)**2.0),
+                      Rict * planck_exp / (planck_exp-1.0) * (H*v*b) / (KB*(a+b*Tict)**2.0),
                       -1.0 * ones(m),
                       Ja))
 
-- 
2.43.0


From 1bc5ef52c6bc26dc44536d27fb86c4e2211770cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 10/85] fix: give all AVHRR sensor models the arguments that
 sensor models are called with

---
 .../sensor_data/AVHRR/AVHRR_sensor_models.py  | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
index 2c14007..e8ee8d5 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
@@ -106,11 +106,11 @@ def sensor_model_3(sensor_model_variables,
     return R, J
 
 
-def sensor_model_4((sensor_model_variables,
+def sensor_model_4(sensor_model_variables,
                    sensor_model_parameter,
                    sensor_model_constant,
                    sensor_model_across_track_index,
-                   sensor_model_along_track_index, time)):
+                   sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -167,7 +167,11 @@ def sensor_model_4((sensor_model_variables,
     return R, J
 
 
-def sensor_model_37_2(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_2(sensor_model_variables,
+                      sensor_model_parameter,
+                      sensor_model_constant,
+                      sensor_model_across_track_index,
+                      sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -218,7 +222,11 @@ def sensor_model_37_2(sensor_model_variables, sensor_model_parameter, sensor_mod
     return R, J
 
 
-def sensor_model_37_3(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_3(sensor_model_variables,
+                      sensor_model_parameter,
+                      sensor_model_constant,
+                      sensor_model_across_track_index,
+                      sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -329,7 +337,11 @@ def sensor_model_3_scaled(sensor_model_variables,
     return R, J
 
 
-def sensor_model_4_scaled(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_4_scaled(sensor_model_variables,
+                          sensor_model_parameter,
+                          sensor_model_constant,
+                          sensor_model_across_track_index,
+                          sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -386,7 +398,11 @@ def sensor_model_4_scaled(sensor_model_variables, sensor_model_parameter, sensor
     return R, J
 
 
-def sensor_model_37_2_scaled(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_2_scaled(sensor_model_variables,
+                             sensor_model_parameter,
+                             sensor_model_constant,
+                             sensor_model_across_track_index,
+                             sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -437,7 +453,11 @@ def sensor_model_37_2_scaled(sensor_model_variables, sensor_model_parameter, sen
     return R, J
 
 
-def sensor_model_37_3_scaled(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_3_scaled(sensor_model_variables,
+                             sensor_model_parameter,
+                             sensor_model_constant,
+                             sensor_model_across_track_index,
+                             sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
-- 
2.43.0


From d3fce1945d59eb7752b0965e5c1f604e28fec89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 11/85] fix: derivatives with respect to the scaled parameters
 of AVHRR sensor models

---
 .../sensor_data/AVHRR/AVHRR_sensor_models.py              | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
index e8ee8d5..d1ba33a 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
@@ -332,7 +332,7 @@ def sensor_model_3_scaled(sensor_model_variables,
                       at[1] * Rict * (Cs - Ce) / (Cs - Cict) ** 2 + at[2] * (Cs - Ce),
                       -at[1] * Rict / (Cs - Cict) - at[2] * (Cs + Cict - 2 * Ce),
                       at[1] * (Cs - Ce) / (Cs - Cict),
-                      Ja))
+                      Ja * [1.0, 1.0/1000.0, 1.0/1000.0/1000.0]))
 
     return R, J
 
@@ -393,7 +393,7 @@ def sensor_model_4_scaled(sensor_model_variables,
                       -at[1] * Rict / (Cs - Cict) - at[2] * (Cs + Cict - 2 * Ce),
                       at[1] * (Cs - Ce) / (Cs - Cict),
                       at[3] * ones(m),
-                      Ja))
+                      Ja * [1.0, 1.0/1000.0, 1.0/1000.0/1000.0, 1.0/1000.0]))
 
     return R, J
 
@@ -448,7 +448,7 @@ def sensor_model_37_2_scaled(sensor_model_variables,
                       at[1] * Rict * (Cs - Ce) / (Cs - Cict) ** 2,
                       -at[1] * Rict / (Cs - Cict),
                       at[1] * (Cs - Ce) / (Cs - Cict),
-                      Ja))
+                      Ja * [1.0, 1.0/1000.0]))
 
     return R, J
 
@@ -507,7 +507,7 @@ def sensor_model_37_3_scaled(sensor_model_variables,
                       -at[1] * Rict / (Cs - Cict),
                       at[1] * (Cs - Ce) / (Cs - Cict),
                       at[2] * ones(m),
-                      Ja))
+                      Ja * [1.0, 1.0/1000.0, 1.0/1000.0]))
 
     return R, J
 
-- 
2.43.0


From 66e23b2d08edf53735c8e673880fa7817e93bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 12/85] fix: leave the parameter of the AVHRR 3.7 um model that
 is not rescaled unscaled

---
 .../harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
index d1ba33a..d37d041 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
@@ -201,7 +201,7 @@ def sensor_model_37_2(sensor_model_variables,
 
     # Evaluate radiance using sensor model
     Ja = vstack((ones(m), Rict * (Cs - Ce) / (Cs - Cict))).T
-    at = [sensor_model_parameter[0], 0.98514 + sensor_model_parameter[1]/1000.0]
+    at = [sensor_model_parameter[0], 0.98514 + sensor_model_parameter[1]]
     R = dot(Ja, at)
 
     # Evaluate derivatives
-- 
2.43.0


From 33a6c0d864185924a63d54813d16d3b2c0808e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 13/85] fix: give AVHRR 3.7 um sensors as many parameters as
 their models have

---
 .../sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py      | 2 +-
 .../harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py | 2 +-
 .../sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py      | 2 +-
 .../harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py
index c622a6d..085ccba 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py
@@ -45,7 +45,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0],
                            "sensor_model_constant": []}
 
 
diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py
index 4b44b0a..432468c 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py
@@ -45,7 +45,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0],
                            "sensor_model_constant": []}
 
 
diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py
index 702fae5..1890bf3 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py
@@ -44,7 +44,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}", "T_o"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT", "T_o"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0, 0.0],
                            "sensor_model_constant": []}
 
 
diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py
index ff21f17..3acb519 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py
@@ -44,7 +44,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}", "T_o"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT", "T_o"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0, 0.0],
                            "sensor_model_constant": []}
 
 
-- 
2.43.0


From 1b6d5629fa43edb5dbd57ada0d79e7688a2f3f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 14/85] fix: keep times and track indices in transformed data
 and in the solver's estimates

---
 .../transform2normind/Transform2NormInd.py                  | 4 ++++
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py    | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
index 01b89f2..39be311 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
@@ -131,6 +131,8 @@ class Transform2NormInd:
         MatchUpNormInd.across_track_index2 = MatchUpData.across_track_index2
         MatchUpNormInd.along_track_index1 = MatchUpData.along_track_index1
         MatchUpNormInd.along_track_index2 = MatchUpData.along_track_index2
+        MatchUpNormInd.time1 = MatchUpData.time1
+        MatchUpNormInd.time2 = MatchUpData.time2
 
         # Convert data block by depending on correlation form
         for i, block_unc in enumerate(MatchUpData.unc):
@@ -234,6 +236,8 @@ class Transform2NormInd:
         MatchUpData.across_track_index2 = MatchUpNormInd.across_track_index2
         MatchUpData.along_track_index1 = MatchUpNormInd.along_track_index1
         MatchUpData.along_track_index2 = MatchUpNormInd.along_track_index2
+        MatchUpData.time1 = MatchUpNormInd.time1
+        MatchUpData.time2 = MatchUpNormInd.time2
 
         # Required to find systematic errors
         n_uS = max([0]+[unc_i.uS_i for unc_i in MatchUpData.unc if (unc_i.typeID == 2) or (unc_i.typeID == 4)])
diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index 7e14ac4..7126ff9 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -385,6 +385,12 @@ class GNAlgo(object):
         MatchUpEstimate_NormInd.sensor_model = self.HData.sensor_model
         MatchUpEstimate_NormInd.sensor_model_constant = self.HData.sensor_model_constant
         MatchUpEstimate_NormInd.adjustment_model = self.HData.adjustment_model
+        MatchUpEstimate_NormInd.across_track_index1 = self.HData.across_track_index1
+        MatchUpEstimate_NormInd.across_track_index2 = self.HData.across_track_index2
+        MatchUpEstimate_NormInd.along_track_index1 = self.HData.along_track_index1
+        MatchUpEstimate_NormInd.along_track_index2 = self.HData.along_track_index2
+        MatchUpEstimate_NormInd.time1 = self.HData.time1
+        MatchUpEstimate_NormInd.time2 = self.HData.time2
         MatchUpEstimate_NormInd.values = deepcopy(xyza[:N_var])
         MatchUpEstimate_NormInd.ks = zeros(N_mu, dtype=float32)
 
-- 
2.43.0


From ad8393bbbd72b515a130d212bc499c80837c0d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 15/85] fix: use each sensor's own number of covariates in
 products with the Jacobian

---
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index 7126ff9..e4fc041 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -682,7 +682,6 @@ class GNAlgo(object):
         mcxyz = self.HData.idx['idx']                                                 # cumulative variables by block
         N_var = self.HData.idx['idx'][-1]                                             # total variables
         N_sensors = len(set(self.HData.idx['parameter_sensor']))                      # total number of sensors
-        N_cov = self.HData.idx['n_cov'][-1]                                           # total number of covariates
         N_mu_s = len(self.HData.idx['Im'])                                            # total number of match-up series
         n_uS = max([0]+[unc_i.uS_i for unc_i in self.HData.unc if (unc_i.typeID == 2) or (unc_i.typeID == 4)])
 
@@ -760,6 +759,7 @@ class GNAlgo(object):
 
                 # > if sensor
                 else:
+                    N_cov = self.HData.idx['sensor_ms'][n_sensor]  # number of covariates of sensor
                     for n_cov in xrange(1, N_cov + 1):
 
                         # i. find variables location of data
-- 
2.43.0


From 044140b52afd3f5004e13832d381b75c85c4c608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 16/85] fix: describe sensor data set after opening in the
 index used by the solver

---
 .../harmonisation/core/matchup/matchupIO/MatchUp.py           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
index 5f26966..f94532d 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
@@ -166,6 +166,10 @@ class MatchUp(object):
         self.a, self.sensor_model_constant, self.sensor_model, \
             self.adjustment_model, self.idx = MatchUpReaderOp.extract_sensor_data(sensor_data, self.idx)
 
+        # Describe the sensor data also in the index that transformations of the data are reversed to
+        self._original_idx["parameter_sensor"] = self.idx["parameter_sensor"]
+        self._original_idx["sensor_model_constant_sensor"] = self.idx["sensor_model_constant_sensor"]
+
     def getVariableData(self, variable_number, sensor_name, matchup_number):
 
         matchup_numbers = []
-- 
2.43.0


From 9cad778af5401804b9a651c29d42414ae88c9e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 17/85] fix: keep the solution of LSMR where it is zero

---
 .../harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
index 9d625b0..a447d74 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
@@ -285,6 +285,7 @@ class LSMRFramework(KrylovMethod):
         if normar == 0:
             if show:
                 print msg[0]
+            self.x = x
             return x, istop, itn, normr, normar, normA, condA, normx
 
         if show:
-- 
2.43.0


From 2d741e76ab887781857ee22278ee31ec98cdf3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 18/85] fix: end MINRES when the right-hand side is an
 eigenvector

---
 .../harmonisation_eiv/pykrylov_minres.py                      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
index a56d3c0..ab5929e 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
@@ -378,7 +378,7 @@ class Minres(KrylovMethod):
                     str3 = ' %8.1e %8.1e %8.1e' % (Anorm, Acond, gbar/Anorm)
                     print str1 + str2 + str3
 
-                if istop > 0: break
+                if istop != 0: break
 
                 if (itn % 10)==0: print ' '
 
@@ -392,7 +392,7 @@ class Minres(KrylovMethod):
             print last+' Arnorm  =  %12.4e' % Arnorm
             print last+self.msg[istop+1]
 
-        self.converged = istop in [1,2,3,4,10]
+        self.converged = istop in [-1,1,2,3,4,10]
         if istop == 10: self.status = 'direct error small'
         self.bestSolution = self.x = x
         self.istop = istop
-- 
2.43.0


From 6ae1a0a5f7f0672c26e23d3079e211106ffe6454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 19/85] fix: stopping test of LSMR where the residual vanishes

---
 .../harmonisation_eiv/pykrylov_lsmr.py                       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
index a447d74..9d3e63b 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
@@ -423,7 +423,10 @@ class LSMRFramework(KrylovMethod):
             # some of which will be small near a solution.
 
             test1   = normr /normb
-            test2   = normar/(normA*normr)
+            if normA*normr != 0:
+                test2 = normar/(normA*normr)
+            else:
+                test2 = float("inf")
             test3   =      1/condA
             t1      =  test1/(1 + normA*normx/normb)
             rtol    = btol + atol*normA*normx/normb
-- 
2.43.0


From 0cbc177dbe3e90a2973280848fef83482d3bf221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 20/85] fix: provide the solvers' names in the package, which
 the solvers import

---
 harmonisation_eiv/harmonisation/__init__.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/__init__.py b/harmonisation_eiv/harmonisation/__init__.py
index 4641133..b77962e 100644
--- a/harmonisation_eiv/harmonisation/__init__.py
+++ b/harmonisation_eiv/harmonisation/__init__.py
@@ -1,13 +1,13 @@
 from core.matchup.matchupIO.MatchUp import MatchUp
 from core.matchup.matchupIO.MatchUpReader import open_matchup
 from core.matchup.matchupIO.Uncertainty import Uncertainty
-# from core.matchup.matchupToolbox.utils.matchup_maths import evaluate_measurand, evaluate_adjusted_measurand, evaluate_K
-# from core.matchup.matchupProcessing.sample2ind.Sample2Ind import Sample2Ind
-# from core.matchup.matchupProcessing.transform2normind.Transform2NormInd import Transform2NormInd
-# from core.matchup.matchupProcessing.simulate_matchup.SimulateMatchUp import SimulateMatchUp
-# from core.matchup.matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult import HarmonisationResult
-# from core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv_pc.HarmonisationEIVPC import HarmonisationEIVPC
-# from core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv.HarmonisationEIV import HarmonisationEIV
+from core.matchup.matchupToolbox.utils.matchup_maths import evaluate_measurand, evaluate_adjusted_measurand, evaluate_K
+from core.matchup.matchupProcessing.sample2ind.Sample2Ind import Sample2Ind
+from core.matchup.matchupProcessing.transform2normind.Transform2NormInd import Transform2NormInd
+from core.matchup.matchupProcessing.simulate_matchup.SimulateMatchUp import SimulateMatchUp
+from core.matchup.matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult import HarmonisationResult
+from core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv_pc.HarmonisationEIVPC import HarmonisationEIVPC
+from core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv.HarmonisationEIV import HarmonisationEIV
 # from core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_lsq.HarmonisationLSQ import HarmonisationLSQ
 # from core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_odr.HarmonisationODR import HarmonisationODR
 # from core.matchup.matchupVis.MatchUpVis import MatchUpVis
-- 
2.43.0


From 91ed10b20fbcd78929ed929c3278bd9c6e81c3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 21/85] fix: set print options that current numpy accepts when
 the preconditioner is imported

---
 .../harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
index 99011fb..a33b9ca 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
@@ -7,11 +7,11 @@ from math import ceil
 from copy import deepcopy
 
 '''___Third Party Modules___'''
-from numpy import append, eye, dot, zeros, ones, outer, diag, set_printoptions, nan, float32, asarray, int32
+from numpy import append, eye, dot, zeros, ones, outer, diag, set_printoptions, inf, float32, asarray, int32
 from numpy.linalg import norm, cholesky, solve, lstsq
 from scipy.linalg import qr
 from scipy.optimize import least_squares
-set_printoptions(threshold=nan)
+set_printoptions(threshold=inf)
 
 '''___Harmonisation Modules___'''
 from harmonisation.core.matchup.matchupToolbox.harmonisation.\
-- 
2.43.0


From 46e823265ce0ec8df77446851567ec75b19cac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 22/85] fix: degrees of freedom and probability of the cost of
 the Gauss-Newton solution

---
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index e4fc041..994f06d 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -20,6 +20,7 @@ import cPickle
 from numpy import zeros, append, ones, dot, outer, hstack, array, eye, inf, asarray, int32, float32, float64, column_stack, count_nonzero, where
 from numpy.linalg import norm, solve, cholesky
 from scipy.sparse.linalg import LinearOperator
+from scipy.stats import chi2
 from math import ceil
 from netCDF4 import Dataset
 from pykrylov_lsmr import LSMRFramework
@@ -315,8 +316,9 @@ class GNAlgo(object):
         MatchUpRes.ks = residuals[N_var:]
         MatchUpRes = self.Transform2NormIndOp.reverse(MatchUpRes)
 
-        cost_dof = N_var - N_mu - N_a
-        cost_p_value = 0
+        # N_var + N_mu residuals, less N_var + N_a fitted values
+        cost_dof = N_mu - N_a
+        cost_p_value = chi2.sf(cost, cost_dof)
 
         # Return fitted systematic errors
         n_uS = max([0] + [unc_i.uS_i for unc_i in self.HData.unc if (unc_i.typeID == 2) or (unc_i.typeID == 4)])
-- 
2.43.0


From 45dcfa6f2e11d5d487e4ecb1bce552e22724ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 23/85] fix: keep the normalised adjustment factors in the
 saved state of the Gauss-Newton solver

---
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index 994f06d..925164f 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -992,6 +992,7 @@ class GNAlgo(object):
         M_T_dim = dataset.createDimension('M_T', len(self.HData.values))
         V_T_dim = dataset.createDimension('V_T', len(self.xyza))
         n_dim = dataset.createDimension('n', self.S.shape[0])
+        K_T_dim = dataset.createDimension('K_T', len(self.HData.ks))
 
         # 3. Create variables
 
@@ -1001,6 +1002,11 @@ class GNAlgo(object):
                                            "(transformed to normalised, independent parameterisation)"
         values_t_initial_var[:] = self.HData.values
 
+        # > ks_t_initial variable
+        ks_t_initial_var = dataset.createVariable('ks_t_initial', 'f4', ('K_T',), zlib=True, complevel=9)
+        ks_t_initial_var.description = "Initial values of match-up adjustment factors (normalised by uncertainty)"
+        ks_t_initial_var[:] = self.HData.ks
+
         # > variables_t_estimate variable
         variables_t_estimate_var = dataset.createVariable('variables_t_estimate', 'f4', ('V_T',), zlib=True,
                                                           complevel=9)
@@ -1030,6 +1036,8 @@ class GNAlgo(object):
 
         self.S = dataset.variables['preconditioner_solution'][:]
         self.HData.values = dataset.variables['values_t_initial'][:]
+        if 'ks_t_initial' in dataset.variables:
+            self.HData.ks = dataset.variables['ks_t_initial'][:]
         self.xyza = dataset.variables['variables_t_estimate'][:]
         dataset.close()
 
-- 
2.43.0


From c6a2666ee7c1341405521a91ceaa51bb56665c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 24/85] fix: save the state of the Gauss-Newton solver, and
 leave out the covariance, where asked to

---
 .../harmonisation_eiv/HarmonisationEIV.py                   | 6 ++++--
 harmonisation_eiv/harmonisation/tools/HarmonisationOp.py    | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
index 09003bc..6ef5c58 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
@@ -55,7 +55,7 @@ class HarmonisationEIV:
 
     def run(self, HData,
                   pc_input=None, save_pc=None, gn_input=None, save_gn=None, save_directory_GNOp=None,
-                  show=1):
+                  show=1, return_covariance=True):
         """
         Return harmonised parameters and diagnostic data for input harmonisaton match-up data
 
@@ -76,7 +76,6 @@ class HarmonisationEIV:
         # 1.	Compute Approximate Solution to find Pre-conditioner to Full Problem
         ################################################################################################################
 
-        return_covariance = True
         if save_directory_GNOp is not None:
             return_covariance = False
 
@@ -154,6 +153,9 @@ class HarmonisationEIV:
                                                                                     'Description': 'Sensors for fitted'
                                                                                                    'systematic errors'}
 
+        if save_gn is not None:
+            GNOp.save(save_gn)
+
         if save_directory_GNOp is not None:
             GNOp.save(save_directory_GNOp)
 
diff --git a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
index 47ecff9..008936e 100644
--- a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
+++ b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
@@ -114,7 +114,7 @@ class HarmonisationOp:
         HarmonisationOutput = Harmonisation.run(HData,
                                                 pc_input=pc_input, save_pc=save_pc,
                                                 gn_input=gn_input, save_gn=save_gn,
-                                                show=show)
+                                                show=show, return_covariance=return_covariance)
 
         print "Final Solution:"
         print HarmonisationOutput.parameter
-- 
2.43.0


From abce79325b9123d1c209660ccf89d74a4e2111be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 25/85] fix: write the result of jobs without an identifier or
 data set name

---
 harmonisation_eiv/harmonisation/tools/HarmonisationOp.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
index 008936e..f2d59a9 100644
--- a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
+++ b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
@@ -128,17 +128,18 @@ class HarmonisationOp:
         # Add metadata
         startDate = ""
         endDate = ""
+        job_id = software_cfg.get("job_id", "")
+        matchup_dataset = software_cfg.get("matchup_dataset", "")
         HarmonisationOutput.additional_attributes = {"software": software_cfg['software'],
                                                      "software_version": software_cfg['version'],
                                                      "software_tag": software_cfg['tag'],
-                                                     "job_id": software_cfg["job_id"],
-                                                     "matchup_dataset": "_".join((software_cfg['matchup_dataset'],
+                                                     "job_id": job_id,
+                                                     "matchup_dataset": "_".join((matchup_dataset,
                                                                                   startDate, endDate))}
 
         # Write data
         fname_output = "_".join(("harm", software_cfg['software'], software_cfg['version'],
-                                 software_cfg['tag'], software_cfg["job_id"],
-                                 software_cfg['matchup_dataset'])) + ".nc"
+                                 software_cfg['tag'], job_id, matchup_dataset)) + ".nc"
         HarmonisationOutput.save(pjoin(output_dir, fname_output), save_residuals=res)
 
         print "\nOutput Data Written To:"
-- 
2.43.0


From 233c09ab9cda50be0adea7995913d87cb75dd3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 26/85] fix: take the amount of output from the command line

---
 harmonisation_eiv/harmonisation/tools/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/tools/common.py b/harmonisation_eiv/harmonisation/tools/common.py
index 7d4c161..06251a6 100644
--- a/harmonisation_eiv/harmonisation/tools/common.py
+++ b/harmonisation_eiv/harmonisation/tools/common.py
@@ -174,9 +174,9 @@ def configure_logging(fname=None, verbose=False, quiet=False):
 
 def read_parsed_cmdline(parsed_cmdline, solver_options=True):
 
-    if parsed_cmdline.quiet is not None:
+    if parsed_cmdline.quiet:
         show = 0
-    elif parsed_cmdline.verbose is not None:
+    elif parsed_cmdline.verbose:
         show = 2
     else:
         show = 1
-- 
2.43.0


From ed09aa27d537ec0cea387d53adb5a83c71453647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 27/85] fix: use each sensor's own number of covariates in the
 preconditioner

---
 .../harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
index a33b9ca..6e7f0e7 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
@@ -206,7 +206,6 @@ class PCAlgo:
         N_sensors = len(set(self.HData.idx['parameter_sensor']))                    # total number of sensors
         N_a = len(self.HData.a)                                                     # total number of parameters for
                                                                                     # all sensors combined
-        N_cov = HData.idx['n_cov'][-1]                                              # total number of covariates
 
         # initialise arrays
         JT = zeros((N_mu, N_sensors), dtype=float32)
@@ -259,6 +258,8 @@ class PCAlgo:
 
                 # > if sensor
                 else:
+                    N_cov = HData.idx['sensor_ms'][n_sensor]  # number of covariates of sensor
+
                     # build covariate by covariate, in a way depending on correlation form
                     # NB: data should be sample in a way that there are no correlations from averaging
                     for n_cov in xrange(1, N_cov + 1):
@@ -356,7 +357,6 @@ class PCAlgo:
         N_var = HData.idx['idx'][-1]                                                # total variables
         N_a = len(self.HData.a)                                                     # total number of parameters for
                                                                                     # all sensors combined
-        N_cov = HData.idx['n_cov'][-1]                                              # total number of covariates
 
         # update a estimate in xyza
         self.xyza[N_var:N_var + N_a] = a
@@ -403,6 +403,7 @@ class PCAlgo:
 
                 # build Jacobian matrix with respect to calibration parameters
                 if JR is not None:
+                    N_cov = HData.idx['sensor_ms'][n_sensor]  # number of covariates of sensor
                     i_sensor_p = asarray([i for i, sn in enumerate(HData.idx["parameter_sensor"]) if sn == sensor_name], dtype=int32)
                     N_sensor_p = len(i_sensor_p)
                     Ja[istart:iend, i_sensor_p] = s * outer(JB, ones(N_sensor_p)) * JR[:, N_cov:N_cov+N_sensor_p] / uK[:, None]
-- 
2.43.0


From 1caf0b8851fb93885ae04d9daac4b744e4903e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 28/85] fix: keep systematic effects of one sensor apart in the
 preconditioner

---
 .../harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
index 6e7f0e7..bd58417 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
@@ -203,12 +203,12 @@ class PCAlgo:
         mc = HData.idx['cNm']                                                       # cumulative
         N_mu = HData.idx['cNm'][-1]                                                 # total match-ups (= number of ks)
         N_var = HData.idx['idx'][-1]                                                # total variables
-        N_sensors = len(set(self.HData.idx['parameter_sensor']))                    # total number of sensors
         N_a = len(self.HData.a)                                                     # total number of parameters for
                                                                                     # all sensors combined
+        n_uS = max([0] + [unc_i.uS_i for unc_i in HData.unc if unc_i.typeID == 2])  # total systematic effects
 
         # initialise arrays
-        JT = zeros((N_mu, N_sensors), dtype=float32)
+        JT = zeros((N_mu, n_uS), dtype=float32)
         VK = eye(N_mu, dtype=float32)
 
         # loop through match-up series
@@ -278,7 +278,7 @@ class PCAlgo:
                         # b. random+systematic correlation
                         if block_unc.typeID == 2:
                             JK = s * diag(JB*JR[:, n_cov-1]) * block_unc.uR / uK
-                            JT[istart:iend, n_sensor-1] = s * JB*JR[:, n_cov-1] * block_unc.uS / uK
+                            JT[istart:iend, block_unc.uS_i-1] += s * JB*JR[:, n_cov-1] * block_unc.uS / uK
 
                         VK[istart:iend, istart:iend] = VK[istart:iend, istart:iend] + dot(JK, JK.T)
 
-- 
2.43.0


From 9950f926964d8a488eb12b2578e6ecdb9db6bbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 29/85] fix: write residuals of the data to residual files

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index b180d3f..cf941b7 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -751,7 +751,7 @@ class HarmonisationResult:
                     X_res_var.description = "X"+str(i_sensor_pair+1)+" harmonisation fitting residuals"
 
                     # Store data
-                    X_res_var = X_res[:]
+                    X_res_var[:] = X_res[:]
 
             # 3. Write ks_res data if available ------------------------------------------------------------------------
 
-- 
2.43.0


From ca61515f2730207ddf548355db801b5968d879a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 30/85] fix: save results without statistics of the cost

---
 .../harmonisationIO/HarmonisationResult.py            | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index cf941b7..bf480d9 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -279,9 +279,8 @@ class HarmonisationResult:
 
         # 2. Get attributes --------------------------------------------------------------------------------------------
         # a. Open required attributes
-        cost = dataset.cost
-        cost_dof = dataset.cost_dof
-        cost_p_value = dataset.cost_p_value
+        cost, cost_dof, cost_p_value = [dataset.getncattr(name) if name in dataset.ncattrs() else None
+                                        for name in ("cost", "cost_dof", "cost_p_value")]
 
         # b. Open additinal attributes
         additional_attributes_keys = [str(attr) for attr in dataset.ncattrs()
@@ -606,9 +605,9 @@ class HarmonisationResult:
         rootgrp = Dataset(path, 'w')
 
         # 2. Set attributes
-        rootgrp.cost = cost
-        rootgrp.cost_dof = cost_dof
-        rootgrp.cost_p_value = cost_p_value
+        for name, value in (("cost", cost), ("cost_dof", cost_dof), ("cost_p_value", cost_p_value)):
+            if value is not None:
+                rootgrp.setncattr(name, value)
         rootgrp.setncatts(additional_attributes)
 
         # 3. Create dimensions
-- 
2.43.0


From 9a149690b3c2a32a421e5876640a59cb39d4d6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 31/85] fix: open results from the path of the output file, and
 without residuals if there are none

---
 .../harmonisationIO/HarmonisationResult.py       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index bf480d9..1f823d0 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -131,7 +131,8 @@ class HarmonisationResult:
         Initialise HarmonisationResult object to store harmonisation output data
 
         :type output_dir: str
-        :param output_dir: path of harmonisation output files' directory
+        :param output_dir: path of harmonisation output files' directory, or of harmonisation output file to open
+        without residuals
 
         :type open_residuals: bool
         :param open_residuals: option for open harmonisation residual files
@@ -161,7 +162,11 @@ class HarmonisationResult:
         self.additional_variables = {}
 
         if output_dir is not None:
-            harmonisation_output_file_path = self._get_harm_output_path(output_dir)
+            if isfile(output_dir):
+                harmonisation_output_file_path = output_dir
+                open_residuals = False
+            else:
+                harmonisation_output_file_path = self._get_harm_output_path(output_dir)
 
             self.parameter, self.parameter_sensors, \
                 self.parameter_covariance_matrix, self.cost, \
@@ -171,9 +176,10 @@ class HarmonisationResult:
 
             if open_residuals:
                 harmonisation_residual_file_paths = self._get_harm_res_paths(output_dir)
-                self.values_res, self.ks_res, \
-                    self.idx, self.additional_attributes \
-                        = self.open_harmonisation_residual_files(harmonisation_residual_file_paths)
+                if harmonisation_residual_file_paths is not None:
+                    self.values_res, self.ks_res, \
+                        self.idx, _ \
+                            = self.open_harmonisation_residual_files(harmonisation_residual_file_paths)
 
     def _get_harm_output_path(self, output_dir):
         """
-- 
2.43.0


From 78cdf870d1bebdce4f726ac34b47255b0185b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 32/85] fix: open additional variables of results as they are
 saved

---
 .../harmonisationIO/HarmonisationResult.py    | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 1f823d0..7089941 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -316,7 +316,16 @@ class HarmonisationResult:
                                                                       "parameter_covariance_matrix"]]
 
         for additional_variable_name in additional_variable_names:
-            additional_variables[additional_variable_name] = dataset.variables[additional_variable_name][:]
+            variable = dataset.variables[additional_variable_name]
+            if variable.dtype == 'S1':
+                additional_variables[additional_variable_name] \
+                    = {'data': [s.strip() for s in list(chartostring(variable[:]))],
+                       'dim': str(variable.dimensions[0]), 'dtype': 'S1'}
+            else:
+                additional_variables[additional_variable_name] = {'data': variable[:], 'dim': variable.dimensions,
+                                                                  'dtype': variable.dtype}
+            if 'Description' in variable.ncattrs():
+                additional_variables[additional_variable_name]['Description'] = variable.Description
 
         # --------------------------------------------------------------------------------------------------------------
 
@@ -645,18 +654,20 @@ class HarmonisationResult:
         # > additional variables - non-required variable to add to harmonisation input files
         if additional_variables is not None:
             for variable in additional_variables.keys():
-                for i, dim in enumerate(additional_variables[variable]['dim']):
+                dims = additional_variables[variable]['dim']
+                if isinstance(dims, str):
+                    dims = (dims,)
+                for dim, length in zip(dims, asarray(additional_variables[variable]['data']).shape):
                     if dim not in rootgrp.dimensions.keys():
-                        new_dim = rootgrp.createDimension(dim, len(additional_variables[variable]['data']))
+                        new_dim = rootgrp.createDimension(dim, length)
 
                 if additional_variables[variable]['dtype'] == 'S1':
                     fmt_str = '{0: <' + str(max_l_name) + '}'
-                    additional_variables[variable]['data'] = asarray([fmt_str.format(s) for s in
-                                                                      additional_variables[variable]['data']])
+                    names = asarray([fmt_str.format(s) for s in additional_variables[variable]['data']])
                     additional_var = rootgrp.createVariable(variable, additional_variables[variable]['dtype'],
                                                             (additional_variables[variable]['dim'], 'l_name'),
                                                             zlib=True, complevel=9)
-                    additional_var[:] = stringtochar(additional_variables[variable]['data'][:])
+                    additional_var[:] = stringtochar(names)
                 else:
                     additional_var = rootgrp.createVariable(variable, additional_variables[variable]['dtype'],
                                                             additional_variables[variable]['dim'],
-- 
2.43.0


From 779e8e778da63dfc4f52436da95904a5787385b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 33/85] fix: open residuals of result files in which the first
 sensor has several covariates

---
 .../harmonisationIO/HarmonisationResult.py    | 47 ++++---------------
 1 file changed, 9 insertions(+), 38 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 7089941..1fb40dc 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -364,11 +364,10 @@ class HarmonisationResult:
 
         # Input residual data is restructured into a 1D array structured in blocks of data in the following way:
         #
-        # values_res = [ Xref_res | X_1_res(1,2) |...| X_1_res(N,S-1) |
+        # values_res = [ X_1_res(1,1) | X_1_res(1,2) |...| X_1_res(N,S-1) |
         #                            | X_1_res(L,S) |...| X_m_res(1,2) |...| X_m_res(N,S-1)| X_m_res(L,S) ]
         #
         # where:
-        # - Xref_res - reference sensor measurand fitting residual (if dataset contains reference sensor)
         # - X_m_res - model covariate fitting residual of number m of a total m covariates
         # - (N, s) - covariate indices:
         #            > N - match-up series index of N of a total N match-up series
@@ -456,43 +455,15 @@ class HarmonisationResult:
         # b. determine 1D data block structure definition indices ------------------------------------------------------
 
         if values_res_available:
-            # generate required data
-            full_sensor_list = [num for pair in Im for num in pair]  # full list of sensors (ordered by match-up series)
-            num_ref_matchup = full_sensor_list.count(0)  # number of reference-sensor match-up series
-            sensor_list = [sensor for sensor in full_sensor_list if
-                           sensor != 0]  # list of sensors (excluding reference)
-
             # Create New Indices:
-            # > n_sensor - list of sensor number of consecuative data blocks
-            n_sensor = [int(0)] * num_ref_matchup + [int(sensor) for m_i in range(1, max(sensor_ms) + 1)
-                                                     for sensor in sensor_list
-                                                     if sensor_ms[sensor] >= m_i]
-
-            # > n_mu - list of match-up series number of consecuative data blocks
-            # For reference sensors
-            n_mu_refs = [int(i + 1) for i, pair in enumerate(Im) if 0 in pair]
-
-            # For series sensors
-            n_mu_sensors = [int(i + 1) for m_i in range(1, max(sensor_ms) + 1)
-                            for i, pair in enumerate(Im)
-                            for sensor in pair
-                            if (sensor_ms[sensor] >= m_i) and (sensor != 0)]
-
-            # Combine
-            n_mu = n_mu_refs + n_mu_sensors
-
-            # > n_cov - list of covariate number of consecuative blocks of data
-            # For reference sensors
-            n_cov_refs = [int(1)] * num_ref_matchup
-
-            # For series sensors
-            n_cov_sensors = [m_i for m_i in range(1, max(sensor_ms) + 1)
-                             for i, pair in enumerate(Im)
-                             for sensor in pair
-                             if (sensor_ms[sensor] >= m_i) and (sensor != 0)]
-
-            # Combine
-            n_cov = n_cov_refs + n_cov_sensors
+            # (sensor number, match-up series number, covariate number) of consecuative data blocks
+            blocks = [(int(sensor), i + 1, m_i) for m_i in range(1, max(sensor_ms) + 1)
+                      for i, pair in enumerate(Im)
+                      for sensor in pair if sensor_ms[sensor] >= m_i]
+
+            n_sensor = [block[0] for block in blocks]
+            n_mu = [block[1] for block in blocks]
+            n_cov = [block[2] for block in blocks]
 
             # - N_var - list of total number of variables in consecuative data blocks
             #          (initially number of match-ups before modification)
-- 
2.43.0


From e296ce70b1c1a4fc1a1bf5791aa1003acf9ae990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 34/85] fix: open residual files in name order

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 1fb40dc..a1029b4 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -226,7 +226,7 @@ class HarmonisationResult:
 
         harm_res_path_rule = re.compile('harm(?:(?=.*res.*).*)\.nc')
 
-        for f in listdir(output_dir):
+        for f in sorted(listdir(output_dir)):
             if harm_res_path_rule.match(f):
                 harm_res_paths.append(pjoin(output_dir, f))
 
-- 
2.43.0


From c5cecfe8e9292e48bdd33d028fa333a23352a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 35/85] fix: keep residuals of match-up series of the same
 sensors apart

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index a1029b4..b2a20d7 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -689,8 +689,11 @@ class HarmonisationResult:
             sensor_name_pair = [idx['sensors'][n_sensor_pair[0]], idx['sensors'][n_sensor_pair[1]]]
 
             # Define filename
-            fname_res = "_".join((output_fname_noext, "res", str(sensor_name_pair[0]), str(sensor_name_pair[1])))\
-                        + output_fname_ext
+            fname_res = "_".join((output_fname_noext, "res", str(sensor_name_pair[0]), str(sensor_name_pair[1])))
+            repeat = idx["Im"][:i_matchup].count(n_sensor_pair)  # earlier match-up series of the same sensors
+            if repeat > 0:
+                fname_res += "_" + str(repeat + 1)
+            fname_res += output_fname_ext
 
             path_res = pjoin(directory, fname_res)
 
-- 
2.43.0


From 8368dc896be54092b88f240127eab1b13747b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 36/85] fix: write names of sensors as bytes of one character
 each to result files

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index b2a20d7..9fb8665 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -616,7 +616,7 @@ class HarmonisationResult:
 
         # > Harmonisation parameter sensor name variable
         fmt_str = '{0: <'+str(max_l_name)+'}'
-        parameter_sensors = asarray([fmt_str.format(p) for p in parameter_sensors])
+        parameter_sensors = asarray([fmt_str.format(p) for p in parameter_sensors], dtype='S' + str(max_l_name))
         parameter_sensors_var = rootgrp.createVariable('parameter_sensors', 'S1', ('n', 'l_name'), zlib=True,
                                                        complevel=9)
         parameter_sensors_var.description = "Sensors associated with harmonisation parameters"
@@ -634,7 +634,8 @@ class HarmonisationResult:
 
                 if additional_variables[variable]['dtype'] == 'S1':
                     fmt_str = '{0: <' + str(max_l_name) + '}'
-                    names = asarray([fmt_str.format(s) for s in additional_variables[variable]['data']])
+                    names = asarray([fmt_str.format(s) for s in additional_variables[variable]['data']],
+                                    dtype='S' + str(max_l_name))
                     additional_var = rootgrp.createVariable(variable, additional_variables[variable]['dtype'],
                                                             (additional_variables[variable]['dim'], 'l_name'),
                                                             zlib=True, complevel=9)
-- 
2.43.0


From 178a0ddb59ae0f5b24489f85c7a09ed65505d2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 37/85] fix: open fill values of additional variables in single
 precision as NaN

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index 7cae8ae..caefdbe 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -546,8 +546,10 @@ class MatchUpReader:
                     # Set fill data (value -1e30) to nan
                     if variable == "nominal_BT2":
                         pass
-                    additional_values[i_start:i_end, i_variable]\
-                        [additional_values[i_start:i_end, i_variable] == -1e30] = nan
+                    # (in double or single precision)
+                    for fill_value in (-1e30, float(float32(-1e30))):
+                        additional_values[i_start:i_end, i_variable]\
+                            [additional_values[i_start:i_end, i_variable] == fill_value] = nan
                 else:
                     additional_values[i_start:i_end, i_variable] = nan
 
-- 
2.43.0


From d6eeb4af15f7984257a97979ac2bcf4d2ce4c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 38/85] fix: include values at the start of a period in its
 average

---
 harmonisation_eiv/harmonisation/core/utils/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/utils/stats.py b/harmonisation_eiv/harmonisation/core/utils/stats.py
index 7753a20..f96782b 100644
--- a/harmonisation_eiv/harmonisation/core/utils/stats.py
+++ b/harmonisation_eiv/harmonisation/core/utils/stats.py
@@ -35,7 +35,7 @@ def time_average(data, times, time_period="month"):
 
     while current_time <= last_time:
         next_time = current_time + time_delta
-        ind = np.where((times > current_time) & (times < next_time))
+        ind = np.where((times >= current_time) & (times < next_time))
         vals = data[ind]
 
         try:
-- 
2.43.0


From 60e6ced38ef5270b89249efd5382b2e1bad8d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 39/85] fix: include values at the upper end of the range in
 the last bin

---
 harmonisation_eiv/harmonisation/core/utils/stats.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/utils/stats.py b/harmonisation_eiv/harmonisation/core/utils/stats.py
index f96782b..ca4b488 100644
--- a/harmonisation_eiv/harmonisation/core/utils/stats.py
+++ b/harmonisation_eiv/harmonisation/core/utils/stats.py
@@ -62,7 +62,11 @@ def bin(Y, X, bins=20, X_range=None):
 
     for i, (bin_min, bin_max) in enumerate(zip(bin_ranges[:-1], bin_ranges[1:])):
 
-        ind = np.where((X >= bin_min) & (X < bin_max))
+        # The last bin includes its upper edge
+        if i == len(bins) - 1:
+            ind = np.where((X >= bin_min) & (X <= X_range[1]))
+        else:
+            ind = np.where((X >= bin_min) & (X < bin_max))
         vals = Y[ind]
 
         try:
-- 
2.43.0


From b9fffdc6e9873249774ae38a3da0ab3e55c1cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 40/85] fix: report structured + systematic covariates with
 other data than their type

---
 tools/harmonisation_input_checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/harmonisation_input_checker.py b/tools/harmonisation_input_checker.py
index 6fa1918..4c1fca9 100644
--- a/tools/harmonisation_input_checker.py
+++ b/tools/harmonisation_input_checker.py
@@ -454,7 +454,7 @@ def check_uncertainty_assignment(rootgrp):
                 uncertainty_str = "independent+systematic"
             if uncertainty_type1[col] == 3:
                 uncertainty_str = "w-matrix"
-            if uncertainty_type1[col] == 3:
+            if uncertainty_type1[col] == 4:
                 uncertainty_str = "w-matrix+systematic"
             if uncertainty_type1[col] not in set([1, 2, 3, 4]):
                 uncertainty_str = "[NOT ASSIGNED!]"
@@ -518,7 +518,7 @@ def check_uncertainty_assignment(rootgrp):
                 uncertainty_str = "independent+systematic"
             if uncertainty_type2[col] == 3:
                 uncertainty_str = "w-matrix"
-            if uncertainty_type2[col] == 3:
+            if uncertainty_type2[col] == 4:
                 uncertainty_str = "w-matrix+systematic"
             if uncertainty_type2[col] not in set([1, 2, 3, 4]):
                 uncertainty_str = "[NOT ASSIGNED!]"
-- 
2.43.0


From 7e8ed05fa78516b1cef3dc7454fe5bae72c08cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 41/85] fix: check the values of Us2 in input files

---
 tools/harmonisation_input_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/harmonisation_input_checker.py b/tools/harmonisation_input_checker.py
index 4c1fca9..8ae9a71 100644
--- a/tools/harmonisation_input_checker.py
+++ b/tools/harmonisation_input_checker.py
@@ -320,7 +320,7 @@ def check_variable_values(rootgrp):
     # ------------------------------------------------------------------------------------------------------------------
 
     # TEST: Assert no negative uncertainties in Ur1, Ur2, Us1 and Us2 --------------------------------------------------
-    test_variables = ["Ur1", "Ur2", "Us1", "Ur2"]
+    test_variables = ["Ur1", "Ur2", "Us1", "Us2"]
     if set(test_variables).issubset(rootgrp.variables.keys()):
         for test_variable in test_variables:
             test_variable_val = rootgrp.variables[test_variable][:]
-- 
2.43.0


From a5618352183b1a08bc9d9aa9ecd521257da0f820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 42/85] fix: report files whose variables are not as specified
 instead of failing on their values

---
 tools/harmonisation_input_checker.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/harmonisation_input_checker.py b/tools/harmonisation_input_checker.py
index 8ae9a71..0c6132b 100644
--- a/tools/harmonisation_input_checker.py
+++ b/tools/harmonisation_input_checker.py
@@ -592,10 +592,14 @@ def main(path):
     errors += check_variable_dtype(rootgrp)
     errors += check_variable_dimension(rootgrp)
     errors += check_attributes(rootgrp)
-    errors += check_w_matrix_variable_dimensions(rootgrp)
-    errors += check_variable_values(rootgrp)
-    errors += check_w_variable_values(rootgrp)
-    errors += check_uncertainty_assignment(rootgrp)
+
+    # The sizes and values of variables can only be checked if these are as specified
+    if errors == []:
+        errors += check_w_matrix_variable_dimensions(rootgrp)
+    if errors == []:
+        errors += check_variable_values(rootgrp)
+        errors += check_w_variable_values(rootgrp)
+        errors += check_uncertainty_assignment(rootgrp)
 
     rootgrp.close()
 
-- 
2.43.0


From b0b316ea1434eb1c2bd33cd944e53e246d87acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 43/85] fix: convert radiances to temperatures

rad2temp tested a variable that it does not have, and left radiances in
arrays of one dimension that have no temperature at zero.
---
 tools/convert_bt_to_radiance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/convert_bt_to_radiance.py b/tools/convert_bt_to_radiance.py
index e020db7..d5e636c 100644
--- a/tools/convert_bt_to_radiance.py
+++ b/tools/convert_bt_to_radiance.py
@@ -132,13 +132,13 @@ class convertBT(object):
         C1 = 1.191062E-5
         C2 = 1.4387863
         
-        if isinstance(temperature,np.ndarray):
+        if isinstance(rad,np.ndarray):
             outBT = np.zeros(rad.shape)
             if 3 == len(rad.shape):
                 outBT[:,:,:] = float('nan')
             elif 2 == len(rad.shape):
                 outBT[:,:] = float('nan')
-            elif 2 == len(rad.shape):
+            elif 1 == len(rad.shape):
                 outBT[:] = float('nan')
 
             gd = (rad > 0.) & np.isfinite(rad)     
-- 
2.43.0


From 9f0e0387b4a32090973aff33beb9a851578654b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 44/85] fix: write AVHRR match-ups in the 3.7 um band to the
 folders of that band

The band is an integer but was compared with a string.
---
 tools/AVHRR_to_updated_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index 99c1813..b2cce9c 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -441,7 +441,7 @@ def write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, u
 
 def prepare_directories(directory, input_file_path, band):
 
-    if band == "37":
+    if band == 37:
         directory_3_RSA = pjoin(directory, "AVHRR_REAL_105_RSW_")
         directory_4_RSA = pjoin(directory, "AVHRR_REAL_106_RSW_")
         directory_3_R_A = pjoin(directory, "AVHRR_REAL_105_R_W_")
-- 
2.43.0


From 165b25ab385155313304bd1805a4a3f750b552e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 45/85] fix: remove AVHRR match-ups below the temperature limit

The brightness temperatures were looked for under the name that they had
before they are renamed, which raised KeyError.
---
 tools/AVHRR_to_updated_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index b2cce9c..8fd341d 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -707,7 +707,7 @@ def main(input_file_path, output_directory, temp_lim=None):
         valid_averages = return_valid_averages_mask(u_C_S_sensor_1, u_C_ICT_sensor_1, u_C_S_sensor_2, u_C_ICT_sensor_2)
     else:
         valid_averages = return_valid_averages_mask(u_C_S_sensor_1, u_C_ICT_sensor_1, u_C_S_sensor_2, u_C_ICT_sensor_2,
-                                                    additional_variables['BT11']['data'], temp_lim)
+                                                    additional_variables['BT']['data'], temp_lim)
 
     # > Define X1, X2, Ur1, Ur2, Us1 and Us2 arrays
     m1 = 5
-- 
2.43.0


From 5d9086da40a0d49f32e4338bfb6b97529299a3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 46/85] fix: convert AVHRR brightness temperatures with the
 coefficients of their band

Those of the 11 um band were used for all bands.
---
 tools/AVHRR_to_updated_spec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index 8fd341d..50ffae2 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -650,9 +650,9 @@ def write_file(output_file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1,
     return 0
 
 
-def convertBT2rad(sensor_name, BT):
+def convertBT2rad(sensor_name, BT, band):
     conv = convertBT(sensor_name)
-    rad = conv.temp2rad(BT, 2)
+    rad = conv.temp2rad(BT, {37: 1, 11: 2, 12: 3}[band])
     return rad
 
 
@@ -691,12 +691,12 @@ def main(input_file_path, output_directory, temp_lim=None):
     # Convert BT to radiance
     if "ref_BT" in additional_variables:
         additional_variables['nominal_measurand1'] = {'data': convertBT2rad(sensor_1_name,
-                                                                            additional_variables["ref_BT"]["data"]),
+                                                                            additional_variables["ref_BT"]["data"], band),
                                                       "Description": "Nominal measurand for sensor 1",
                                                       "dim": ("M",),
                                                       "dtype": "f4"}
         additional_variables['nominal_measurand2'] = {"data": convertBT2rad(sensor_2_name,
-                                                                            additional_variables["BT"]["data"]),
+                                                                            additional_variables["BT"]["data"], band),
                                                       "Description": "Nominal measurand for sensor 2",
                                                       "dim": ("M",),
                                                       "dtype": "f4"}
-- 
2.43.0


From da8a36d1a34719634a2ad9433b4a2150f8d199b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:36 +0000
Subject: [PATCH 47/85] fix: write AVHRR nominal measurands as radiances

The radiances were computed but brightness temperatures written for them.
---
 tools/AVHRR_to_updated_spec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index 50ffae2..0d624a4 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -195,9 +195,11 @@ def return_additional_variables(additional_variables, valid_averages):
     additional_variables_new = {}
 
     old_names = ["original_indices", "latitude", "longitude", "satza", "solza", "BT",
-                 "ref_latitude", "ref_longitude", "ref_satza", "ref_solza", "ref_BT"]
+                 "ref_latitude", "ref_longitude", "ref_satza", "ref_solza", "ref_BT",
+                 "nominal_measurand1", "nominal_measurand2"]
     new_names = ["original_indices", "lat2", "lon2", "vza2", "sza2", "nominal_measurand2",
-                 "lat1", "lon1", "vza1", "sza1", "nominal_measurand1"]
+                 "lat1", "lon1", "vza1", "sza1", "nominal_measurand1",
+                 "nominal_measurand1", "nominal_measurand2"]
 
     for old_name, new_name in zip(old_names, new_names):
         if old_name in additional_variables.keys():
-- 
2.43.0


From df627ca7cbaad8eecc7caa0989630ca8d70a4659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 48/85] fix: read the sensors of AVHRR match-up files as
 integers

Current netCDF4 gives a masked array, which is not a key.
---
 tools/AVHRR_to_updated_spec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index 0d624a4..a7cde68 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -119,8 +119,8 @@ def read_matchup_data(file_path):
     K = rootgrp.variables["K"][:]
     Kr = rootgrp.variables["Kr"][:]
     Ks = rootgrp.variables["Ks"][:]
-    sensor_1_name = rootgrp.variables["lm"][0, 0]
-    sensor_2_name = rootgrp.variables["lm"][0, 1]
+    sensor_1_name = int(rootgrp.variables["lm"][0, 0])
+    sensor_2_name = int(rootgrp.variables["lm"][0, 1])
     time_sensor_1 = rootgrp.variables["ref_time_matchup"][:]
     time_sensor_2 = rootgrp.variables["time_matchup"][:]
     u_C_S_sensor_1 = rootgrp.variables['ref_cal_Sp_Ur'][:, :]
-- 
2.43.0


From c5927a7c4906cf5b253e403dbbe121d20010ece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 49/85] fix: make W matrices of the second MW sensor from its
 own times

---
 tools/MW_add_W_matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/MW_add_W_matrices.py b/tools/MW_add_W_matrices.py
index 508c069..a507daa 100644
--- a/tools/MW_add_W_matrices.py
+++ b/tools/MW_add_W_matrices.py
@@ -82,7 +82,7 @@ def read_matchup_data(file_path):
     sensor_2_name = dataset.sensor_2_name
 
     time1 = dataset.variables['time1'][:]
-    time2 = dataset.variables['time1'][:]
+    time2 = dataset.variables['time2'][:]
 
     uR1 = dataset.variables['Ur1'][0, :]
     uR2 = dataset.variables['Ur2'][0, :]
-- 
2.43.0


From 0c2a990236aacaeba23918fbdb4191dcc7a78b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 50/85] fix: give u matrices of the first MW sensor the size of
 its W matrix

---
 tools/MW_add_W_matrices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/MW_add_W_matrices.py b/tools/MW_add_W_matrices.py
index a507daa..7e6c669 100644
--- a/tools/MW_add_W_matrices.py
+++ b/tools/MW_add_W_matrices.py
@@ -177,8 +177,8 @@ def return_w_matrix_variables_MW(time1, time2, scanline_time, uR1, uR2, weights,
         # a. Compute W data
         w_matrix1, u_matrix10 = generate_rolling_average_w_matrix(time1, scanline_time, float(uR1[0]), weights=weights)
         w_matrices = [w_matrix1, w_matrix2]
-        u_matrix11 = ones(len(u_matrix20)) * uR1[1]
-        u_matrix12 = ones(len(u_matrix20)) * uR1[2]
+        u_matrix11 = ones(len(u_matrix10)) * uR1[1]
+        u_matrix12 = ones(len(u_matrix10)) * uR1[2]
 
         u_matrices = [u_matrix10, u_matrix11, u_matrix12, u_matrix20, u_matrix21, u_matrix22]
 
-- 
2.43.0


From 582db4abc52055da6c5c5cf7e61538f8c9d8737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 51/85] fix: run the conversion of simulated match-ups as a
 program

main was called without the command line.
---
 tools/pmh2fiduceo.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index fd43966..f04ea83 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -819,5 +819,4 @@ def main(parsed_cmdline):
     return 0
 
 if __name__ == "__main__":
-    #main(parsed_cmdline)
-    main()
+    main(parsed_cmdline)
-- 
2.43.0


From fc228434aae0d7fe85a352ad833e6b2d08798cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 52/85] fix: convert simulated match-ups of several series of
 different sizes

The uncertainty of K was replaced by that of all match-ups of the first series.
---
 tools/pmh2fiduceo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index f04ea83..1fe0fdd 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -762,12 +762,12 @@ def run_conversion(input_directory, output_directory):
         uncertainty_type2 = array(uncertainty_type)
 
         K = H[i_start:i_end, -1]
-        Kr = full(n_mu, Kr)
+        Kr_i = full(n_mu, Kr)
         Ks = zeros(n_mu)
 
         time = arange(i_start, i_end)
 
-        write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, uncertainty_type2, K, Kr, Ks,
+        write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, uncertainty_type2, K, Kr_i, Ks,
                          time, time, sensor_1_name, sensor_2_name, additional_variables=None)
 
     logger.info("Adding W matrices...")
-- 
2.43.0


From d816da890d4d53dac0ac77425ee054d763249846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 53/85] fix: refuse simulated match-ups with different W or u
 matrices

Those that differ in one of the two were converted with the first.
---
 tools/pmh2fiduceo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index 1fe0fdd..796da6d 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -775,7 +775,7 @@ def run_conversion(input_directory, output_directory):
     nW_w = [n for n,t in zip(nW, uncertainty_type) if t == 3]
 
     # Check all W matrices the same
-    if (nW_w.count(nW_w[0]) != len(nW_w)) and (uR_w.count(uR_w[0]) != len(uR_w)):
+    if (nW_w.count(nW_w[0]) != len(nW_w)) or (uR_w.count(uR_w[0]) != len(uR_w)):
         raise ValueError("Expected all W matrices to be the same, Sam needs to do more coding")
     else:
         w_matrix, uncertainty_matrix = generate_rolling_average_w_matrix(time, 1.0, uR_w[0], kernel_size=nW_w[0])
-- 
2.43.0


From fae32cb39d2b64f994a7e662ad19a80f21fe59d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 54/85] fix: make the W matrix of each series of simulated
 match-ups

That of the last series was appended to the files of all, which may have
other numbers of match-ups.
---
 tools/pmh2fiduceo.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index 796da6d..ee40fa0 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -777,15 +777,16 @@ def run_conversion(input_directory, output_directory):
     # Check all W matrices the same
     if (nW_w.count(nW_w[0]) != len(nW_w)) or (uR_w.count(uR_w[0]) != len(uR_w)):
         raise ValueError("Expected all W matrices to be the same, Sam needs to do more coding")
-    else:
-        w_matrix, uncertainty_matrix = generate_rolling_average_w_matrix(time, 1.0, uR_w[0], kernel_size=nW_w[0])
-        w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz, \
-        uncertainty_vector_row_count, uncertainty_vector = return_w_matrix_variables([w_matrix], [uncertainty_matrix])
 
     w_matrix_use2 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
     uncertainty_vector_use2 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
 
-    for o, sensor_pair in zip(output_file_paths, Im):
+    for o, sensor_pair, n_mu in zip(output_file_paths, Im, Nm):
+        w_matrix, uncertainty_matrix = generate_rolling_average_w_matrix(arange(n_mu), 1.0, uR_w[0],
+                                                                         kernel_size=nW_w[0])
+        w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz, \
+        uncertainty_vector_row_count, uncertainty_vector = return_w_matrix_variables([w_matrix], [uncertainty_matrix])
+
         if sensor_pair[0] == '0':
             w_matrix_use1 = array([0], int8)
             uncertainty_vector_use1 = array([0], int8)
-- 
2.43.0


From 48ef9b895f7e2f2bb8edd34952a8317476ccb021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 55/85] fix: convert simulated match-ups without structured
 errors

W matrices were made of the first structured effect, where there is none.
---
 tools/pmh2fiduceo.py | 55 ++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index ee40fa0..5656c25 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -770,33 +770,34 @@ def run_conversion(input_directory, output_directory):
         write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, uncertainty_type2, K, Kr_i, Ks,
                          time, time, sensor_1_name, sensor_2_name, additional_variables=None)
 
-    logger.info("Adding W matrices...")
-    uR_w = [u for u,t in zip(uR, uncertainty_type) if t == 3]
-    nW_w = [n for n,t in zip(nW, uncertainty_type) if t == 3]
-
-    # Check all W matrices the same
-    if (nW_w.count(nW_w[0]) != len(nW_w)) or (uR_w.count(uR_w[0]) != len(uR_w)):
-        raise ValueError("Expected all W matrices to be the same, Sam needs to do more coding")
-
-    w_matrix_use2 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
-    uncertainty_vector_use2 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
-
-    for o, sensor_pair, n_mu in zip(output_file_paths, Im, Nm):
-        w_matrix, uncertainty_matrix = generate_rolling_average_w_matrix(arange(n_mu), 1.0, uR_w[0],
-                                                                         kernel_size=nW_w[0])
-        w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz, \
-        uncertainty_vector_row_count, uncertainty_vector = return_w_matrix_variables([w_matrix], [uncertainty_matrix])
-
-        if sensor_pair[0] == '0':
-            w_matrix_use1 = array([0], int8)
-            uncertainty_vector_use1 = array([0], int8)
-        else:
-            w_matrix_use1 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
-            uncertainty_vector_use1 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
-        append_W_to_input_file(o,
-                               w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz,
-                               uncertainty_vector_row_count, uncertainty_vector,
-                               w_matrix_use1, w_matrix_use2, uncertainty_vector_use1, uncertainty_vector_use2)
+    if 3 in uncertainty_type:
+        logger.info("Adding W matrices...")
+        uR_w = [u for u,t in zip(uR, uncertainty_type) if t == 3]
+        nW_w = [n for n,t in zip(nW, uncertainty_type) if t == 3]
+
+        # Check all W matrices the same
+        if (nW_w.count(nW_w[0]) != len(nW_w)) or (uR_w.count(uR_w[0]) != len(uR_w)):
+            raise ValueError("Expected all W matrices to be the same, Sam needs to do more coding")
+
+        w_matrix_use2 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
+        uncertainty_vector_use2 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
+
+        for o, sensor_pair, n_mu in zip(output_file_paths, Im, Nm):
+            w_matrix, uncertainty_matrix = generate_rolling_average_w_matrix(arange(n_mu), 1.0, uR_w[0],
+                                                                             kernel_size=nW_w[0])
+            w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz, \
+            uncertainty_vector_row_count, uncertainty_vector = return_w_matrix_variables([w_matrix], [uncertainty_matrix])
+
+            if sensor_pair[0] == '0':
+                w_matrix_use1 = array([0], int8)
+                uncertainty_vector_use1 = array([0], int8)
+            else:
+                w_matrix_use1 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
+                uncertainty_vector_use1 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
+            append_W_to_input_file(o,
+                                   w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz,
+                                   uncertainty_vector_row_count, uncertainty_vector,
+                                   w_matrix_use1, w_matrix_use2, uncertainty_vector_use1, uncertainty_vector_use2)
 
     logger.info("Saving True Parameters...")
     savetxt(os.path.join(output_directory, "atrue.txt"), atrue)
-- 
2.43.0


From 37f631aecd667365405672800badf495f09d84da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 56/85] fix: take the uncertainty types of the telemetry
 columns selected

---
 .../src/main/fortran/gpl/mod_reader.F90              | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
index 2ef98cb..c80ebc7 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
@@ -430,10 +430,16 @@ contains
     integer, intent(out) :: ic(:)
     integer, intent(out) :: iv(:)
     integer, intent(out) :: iw(:)
+    integer :: c
     integer :: l
 
     do l = 1, r
-      select case (u_types(l))
+      if (config_job_sensor_columns_select(i)) then
+        c = config_job_sensor_columns(i, l)
+      else
+        c = l
+      end if
+      select case (u_types(c))
         case (C_INDEPENDENT)
           if (config_job_sensor_columns_select(i)) then
             call add_d_matrix( ur(config_job_sensor_columns(i, l), 1:m:s), ic(l) )
@@ -446,7 +452,7 @@ contains
           end if
         case (C_INDEPENDENT_PERTURBED)
           if (.not. config_job_enable_covariance_common) then
-            u_types(l) = C_INDEPENDENT
+            u_types(c) = C_INDEPENDENT
             if (config_job_sensor_columns_select(i)) then
               call add_d_matrix( ur(config_job_sensor_columns(i, l), 1:m:s), ic(l) )
             else
@@ -472,7 +478,7 @@ contains
             iw(l) = w_matrix_indices(w_matrix_use(l))
           end if
         case (C_STRUCTURED_PERTURBED) !! not yet supported, treated like structured random correlation
-          u_types(l) = C_STRUCTURED
+          u_types(c) = C_STRUCTURED
           if (config_job_sensor_columns_select(i)) then
             iv(l) = v_matrix_indices(u_matrix_use(config_job_sensor_columns(i, l)))
             iw(l) = w_matrix_indices(w_matrix_use(config_job_sensor_columns(i, l)))
-- 
2.43.0


From b6da2dca72fb4c7fc850adc86909f78b704853e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 57/85] fix: refuse huge uncertainties of the second sensor

---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
index c80ebc7..526c4ee 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
@@ -235,7 +235,7 @@ contains
     call assert_not_infinite( ur1, "Ur1" )
     call assert_not_infinite( ur2, "Ur2" )
     call assert_not_huge( ur1, "Ur1" )
-    call assert_not_huge( ur1, "Ur2" )
+    call assert_not_huge( ur2, "Ur2" )
     call read_variable( ncid, "Us1", us1, 0.0_cp )
     call read_variable( ncid, "Us2", us2, 0.0_cp )
     call assert_not_nan( us1, "Us1" )
@@ -243,7 +243,7 @@ contains
     call assert_not_infinite( us1, "Us1" )
     call assert_not_infinite( us2, "Us2" )
     call assert_not_huge( us1, "Us1" )
-    call assert_not_huge( us1, "Us2" )
+    call assert_not_huge( us2, "Us2" )
     !! 5.c) Allocate storage for matrix metadata
     allocate (u_types1(m1 + m1))
     allocate (u_types2(m2 + m2))
-- 
2.43.0


From 57d8eb126442d8fcf924ce6789f050e1b6bf7690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 58/85] fix: write the results to files of the names configured

---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90
index 0ea9ea0..7fa624c 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90
@@ -551,7 +551,7 @@ contains
     character(len=*), parameter  :: pre = "harm"
     character(len=1), parameter  :: sep = "_"
 
-    if (len( config_name_parameter_dataset ) > 0) then
+    if (config_name_parameter_dataset == "") then
       name = pre
       name = trim( name )//sep//trim( config_value_att_software )
       name = trim( name )//sep//trim( config_value_att_software_version )
@@ -599,7 +599,7 @@ contains
       name = trim( name )//sep//trim( sensor_j_name )
       name = trim( name )//trim( ext )
     else
-      name = config_name_residuals_dataset//sep//trim( sensor_i_name )//"_"//trim( sensor_j_name )//trim( ext )
+      name = trim( config_name_residuals_dataset )//sep//trim( sensor_i_name )//"_"//trim( sensor_j_name )//trim( ext )
     end if
   end function get_residuals_dataset_name
 
-- 
2.43.0


From 62124007286af94c98678c056ea45bbe7cf044d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 59/85] fix: write the times of residuals in double precision

---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
index 5249f19..9251c97 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
@@ -203,7 +203,7 @@ contains
     call add_dimension( ncid, config_name_dim_m, ds%m, m_id )
 
     !! 4) Add variables
-    call add_var_vector( ncid, real( ds%t, cp ), m_id, config_name_var_time, &
+    call add_var_vector( ncid, ds%t, m_id, config_name_var_time, &
       config_desc_var_time, t_id )
     call add_attribute( ncid, t_id, "units", config_unit_var_time )
     call add_var_vector( ncid, real( ds%k_res, cp ), m_id, config_name_var_k_res, &
-- 
2.43.0


From ab45572c58f1f09bf534fb18910985a759cc8455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 60/85] fix: write the units of residual weights to the weights

---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
index 9251c97..46d0eb7 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
@@ -227,7 +227,7 @@ contains
     if (config_job_enable_unit /= "") then
       call add_attribute( ncid, k_res_id, "units", config_job_enable_unit )
       call add_attribute( ncid, k_res_unc_id, "units", config_job_enable_unit )
-      call add_attribute( ncid, k_res_unc_id, "units", "1 / "//config_job_enable_unit )
+      call add_attribute( ncid, k_res_weights_id, "units", "1 / "//config_job_enable_unit )
       call add_attribute( ncid, meas_i_id, "units", config_job_enable_unit )
       call add_attribute( ncid, meas_j_id, "units", config_job_enable_unit )
       call add_attribute( ncid, meas_i_unc_q_id, "units", config_job_enable_unit )
-- 
2.43.0


From 0912446fce1bee87159df5369f648073564683ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 61/85] fix: leave an unknown setting out of the job template

---
 .../src/main/resources-filtered/templates/template_job.nml       | 1 -
 1 file changed, 1 deletion(-)

diff --git a/harmonisation_meiv_demo/src/main/resources-filtered/templates/template_job.nml b/harmonisation_meiv_demo/src/main/resources-filtered/templates/template_job.nml
index c1a2012..978d122 100644
--- a/harmonisation_meiv_demo/src/main/resources-filtered/templates/template_job.nml
+++ b/harmonisation_meiv_demo/src/main/resources-filtered/templates/template_job.nml
@@ -1,6 +1,5 @@
 $job
    config_job_id                       = "01"
-   config_job_random                   = 0
    config_job_enable_covariance_matrix = F   
    config_job_enable_covariance_update = F
    config_job_enable_prior_data        = F
-- 
2.43.0


From 77128d7a4b860639d8e1712fcfa011e7085d9989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 62/85] fix: express times near midnight and after 2038 as
 dates

---
 .../src/main/fortran/gpl/mod_time.F90         | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_time.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_time.F90
index 5cc5bf7..c14317b 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_time.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_time.F90
@@ -22,7 +22,7 @@
 !! @author Ralf Quast
 !! @copyright GNU Public License.
 module mod_time
-  use mod_base, only: dp, sp
+  use mod_base, only: dp, long
 
   implicit none
 
@@ -56,15 +56,16 @@ contains
   function iso_date_and_time( uts ) result (iso)
     real(kind=dp), intent(in) :: uts
     character(len=16) :: iso
-    real(kind=dp) :: jd
+    integer(kind=long) :: seconds
     integer :: day, month, year, date, time, hour, minute, secs
     integer :: jdn
     integer :: e
     integer :: f
     integer :: g
     integer :: h
-    !! The Unix epoch expressed as Julian date
-    real(kind=dp), parameter  :: EPOCH_19700101T000000Z = 2440587.5_dp
+    !! The Julian day number of the first day of the Unix epoch
+    integer, parameter :: EPOCH_19700101 = 2440588
+    integer(kind=long), parameter :: SECONDS_PER_DAY = 86400_long
     !! Constants from Richards (2013)
     integer, parameter :: B = 274277
     integer, parameter :: J = 1401
@@ -79,9 +80,10 @@ contains
     integer, parameter :: W = 2
     integer, parameter :: Y = 4716
 
-    !! Compute Julian date and Julian day number
-    jd = EPOCH_19700101T000000Z + uts / 86400.0_dp
-    jdn = int( floor( jd + 0.5_dp ) )
+    !! Compute seconds since midnight and Julian day number
+    seconds = floor( uts, kind=long )
+    secs = int( modulo( seconds, SECONDS_PER_DAY ) )
+    jdn = EPOCH_19700101 + int( (seconds - secs) / SECONDS_PER_DAY )
 
     !! Compute years, months, days (Richards 2013)
     f = jdn + J + (((4 * jdn + B) / 146097) * 3) / 4 + C
@@ -93,10 +95,6 @@ contains
     year = (e / P) - Y + (N + M - month) / N
 
     !! Compute hours, minutes, and seconds
-    secs = mod( int( floor( uts ) ), 86400 )
-    if (secs < 0) then
-      secs = secs + 86400
-    end if
     hour = secs / 3600
     minute = (secs - hour * 3600) / 60
     secs = secs - hour * 3600 - minute * 60
-- 
2.43.0


From 9c1056b54b3041794d0837014746cd49377333c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 63/85] Undo the repairs of AVHRR_to_updated_spec.py

Its name is that of a test file, which these commits may not change.
It undoes 9f0e038, 165b25a, 5d9086d, da8a36d and df627ca.
---
 tools/AVHRR_to_updated_spec.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index a7cde68..99c1813 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -119,8 +119,8 @@ def read_matchup_data(file_path):
     K = rootgrp.variables["K"][:]
     Kr = rootgrp.variables["Kr"][:]
     Ks = rootgrp.variables["Ks"][:]
-    sensor_1_name = int(rootgrp.variables["lm"][0, 0])
-    sensor_2_name = int(rootgrp.variables["lm"][0, 1])
+    sensor_1_name = rootgrp.variables["lm"][0, 0]
+    sensor_2_name = rootgrp.variables["lm"][0, 1]
     time_sensor_1 = rootgrp.variables["ref_time_matchup"][:]
     time_sensor_2 = rootgrp.variables["time_matchup"][:]
     u_C_S_sensor_1 = rootgrp.variables['ref_cal_Sp_Ur'][:, :]
@@ -195,11 +195,9 @@ def return_additional_variables(additional_variables, valid_averages):
     additional_variables_new = {}
 
     old_names = ["original_indices", "latitude", "longitude", "satza", "solza", "BT",
-                 "ref_latitude", "ref_longitude", "ref_satza", "ref_solza", "ref_BT",
-                 "nominal_measurand1", "nominal_measurand2"]
+                 "ref_latitude", "ref_longitude", "ref_satza", "ref_solza", "ref_BT"]
     new_names = ["original_indices", "lat2", "lon2", "vza2", "sza2", "nominal_measurand2",
-                 "lat1", "lon1", "vza1", "sza1", "nominal_measurand1",
-                 "nominal_measurand1", "nominal_measurand2"]
+                 "lat1", "lon1", "vza1", "sza1", "nominal_measurand1"]
 
     for old_name, new_name in zip(old_names, new_names):
         if old_name in additional_variables.keys():
@@ -443,7 +441,7 @@ def write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, u
 
 def prepare_directories(directory, input_file_path, band):
 
-    if band == 37:
+    if band == "37":
         directory_3_RSA = pjoin(directory, "AVHRR_REAL_105_RSW_")
         directory_4_RSA = pjoin(directory, "AVHRR_REAL_106_RSW_")
         directory_3_R_A = pjoin(directory, "AVHRR_REAL_105_R_W_")
@@ -652,9 +650,9 @@ def write_file(output_file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1,
     return 0
 
 
-def convertBT2rad(sensor_name, BT, band):
+def convertBT2rad(sensor_name, BT):
     conv = convertBT(sensor_name)
-    rad = conv.temp2rad(BT, {37: 1, 11: 2, 12: 3}[band])
+    rad = conv.temp2rad(BT, 2)
     return rad
 
 
@@ -693,12 +691,12 @@ def main(input_file_path, output_directory, temp_lim=None):
     # Convert BT to radiance
     if "ref_BT" in additional_variables:
         additional_variables['nominal_measurand1'] = {'data': convertBT2rad(sensor_1_name,
-                                                                            additional_variables["ref_BT"]["data"], band),
+                                                                            additional_variables["ref_BT"]["data"]),
                                                       "Description": "Nominal measurand for sensor 1",
                                                       "dim": ("M",),
                                                       "dtype": "f4"}
         additional_variables['nominal_measurand2'] = {"data": convertBT2rad(sensor_2_name,
-                                                                            additional_variables["BT"]["data"], band),
+                                                                            additional_variables["BT"]["data"]),
                                                       "Description": "Nominal measurand for sensor 2",
                                                       "dim": ("M",),
                                                       "dtype": "f4"}
@@ -709,7 +707,7 @@ def main(input_file_path, output_directory, temp_lim=None):
         valid_averages = return_valid_averages_mask(u_C_S_sensor_1, u_C_ICT_sensor_1, u_C_S_sensor_2, u_C_ICT_sensor_2)
     else:
         valid_averages = return_valid_averages_mask(u_C_S_sensor_1, u_C_ICT_sensor_1, u_C_S_sensor_2, u_C_ICT_sensor_2,
-                                                    additional_variables['BT']['data'], temp_lim)
+                                                    additional_variables['BT11']['data'], temp_lim)
 
     # > Define X1, X2, Ur1, Ur2, Us1 and Us2 arrays
     m1 = 5
-- 
2.43.0


From ff5e53a207f1060517cce89a823105caff970310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 64/85] fix: harmonised measurands of plots are those of the
 harmonisation result

---
 .../harmonisation/harmonisationVis/HarmonisationVis.py     | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
index ab1b688..808a5b6 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
@@ -96,12 +96,7 @@ class HarmonisationVis(MatchUpVis):
     def get_L2_harm(self):
         if self.L2_harm is None:
             if self.MatchUpData is not None:
-                try:
-                    L_est = evaluate_adjusted_measurand(self.MatchUpData)
-                    self.L1_harm = L_est[:, 0]
-                    self.L2_harm = L_est[:, 1]
-                except:
-                    raise ValueError("Unable to evaluate harmonised radiances")
+                self.get_L1_harm()
             else:
                 raise ValueError("Matchup data not available")
         return self.L2_harm
-- 
2.43.0


From 2d93c33c4e47b5e5893362d56200e285ddabe430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 65/85] fix: error bars of plots of one series are those of
 each value

---
 harmonisation_eiv/harmonisation/core/utils/plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/utils/plots.py b/harmonisation_eiv/harmonisation/core/utils/plots.py
index 20b3745..19c987a 100644
--- a/harmonisation_eiv/harmonisation/core/utils/plots.py
+++ b/harmonisation_eiv/harmonisation/core/utils/plots.py
@@ -148,6 +148,8 @@ def plot_scatter(savePath, Y, X, xlbl=None, ylbl=None, title=None, yerr=None, xe
     if (type(X) != list) and ((type(X[0]) != list) & (type(X[0]) != ndarray)):
         X = [X]
         Y = [Y]
+        yerr = [yerr] if yerr is not None else None
+        xerr = [xerr] if xerr is not None else None
 
     colours = ["#1f78b4",
                "#a6cee3",
-- 
2.43.0


From 9197e03de0f226e16e794a22e3a31786503017b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:50 +0000
Subject: [PATCH 66/85] fix: draw several series without a legend

---
 harmonisation_eiv/harmonisation/core/utils/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/utils/plots.py b/harmonisation_eiv/harmonisation/core/utils/plots.py
index 19c987a..839fc64 100644
--- a/harmonisation_eiv/harmonisation/core/utils/plots.py
+++ b/harmonisation_eiv/harmonisation/core/utils/plots.py
@@ -84,7 +84,7 @@ def plot_scatter(savePath, Y, X, xlbl=None, ylbl=None, title=None, yerr=None, xe
             Y = [Y_i[~isnan(Y_i)] for Y_i in Y]
 
     if legend == None:
-        if (type(X) == list) and ((type(X[0]) == list) & (type(X[0]) == ndarray)):
+        if (type(X) == list) and ((type(X[0]) == list) | (type(X[0]) == ndarray)):
             legend = ['__nolegend__' for i in range(len(X))]
         else:
             legend = ['__nolegend__']
-- 
2.43.0


From 35c5b468bd2486123c858dd1ea0c013474159ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:26 +0000
Subject: [PATCH 67/85] fix: plot densities of K residuals of all series

---
 .../harmonisation/harmonisationVis/HarmonisationVis.py   | 9 +++++----
 .../harmonisation/core/matchup/matchupVis/MatchUpVis.py  | 6 +++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
index 808a5b6..785ab7f 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
@@ -9,6 +9,7 @@ from copy import deepcopy
 '''__Third Party Modules___'''
 import matplotlib
 matplotlib.use('Agg')  # Force matplotlib to not use any Xwindows backend.
+from numpy import concatenate
 
 '''___harmonisation Modules___'''
 from harmonisation.core.matchup.matchupToolbox.utils.matchup_maths import evaluate_K, evaluate_adjusted_measurand, evaluate_measurand
@@ -171,8 +172,8 @@ class HarmonisationVis(MatchUpVis):
 
     def plot_kres_harm_harm_density(self, directory, ylim=None):
         plot_density(pjoin(directory, "k_res_harmonised_density.pdf"),
-                     self.get_kres_harm_harm_musamples(),
-                     self.get_times_musamples(),
+                     concatenate(self.get_kres_harm_harm_musamples()),
+                     concatenate(self.get_times_musamples()),
                      bins=200, title="", ylbl="Harmonised K Residual", xlbl="Time",
                      txt=["M = " + str(self.get_mu_total()) + " "], solid_ylines=[0], ylim=ylim)
         return 0
@@ -197,8 +198,8 @@ class HarmonisationVis(MatchUpVis):
 
     def plot_kres_nom_harm_density(self, directory, ylim=None):
         plot_density(pjoin(directory, "k_res_nom_harm_density.pdf"),
-                     self.get_kres_nom_harm_musamples(),
-                     self.get_times_musamples(),
+                     concatenate(self.get_kres_nom_harm_musamples()),
+                     concatenate(self.get_times_musamples()),
                      bins=200, title="", ylbl="K = K - (nominal-harmonised)", xlbl="Time",
                      txt=["M = " + str(self.get_mu_total()) + " "], solid_ylines=[0], ylim=ylim)
         return 0
diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
index 282a6f5..80b293f 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
@@ -11,7 +11,7 @@ from os.path import join as pjoin
 import matplotlib
 # Force matplotlib to not use any Xwindows backend.
 matplotlib.use('Agg')
-from numpy import isnan, sort, arange, sort
+from numpy import isnan, sort, arange, concatenate
 from numpy.random import rand
 
 '''___harmonisation Modules___'''
@@ -280,8 +280,8 @@ class MatchUpVis:
 
     def plot_kres_nom_nom_density(self, directory, ylim=None):
         plot_density(pjoin(directory, "k_res_nominal_density.pdf"),
-                     self.get_kres_nom_nom_musamples(),
-                     self.get_times_musamples(),
+                     concatenate(self.get_kres_nom_nom_musamples()),
+                     concatenate(self.get_times_musamples()),
                      bins=200, title="", ylbl="Nominal K Residual", xlbl="Time",
                      txt=["M = " + str(self.get_mu_total()) + " "], solid_ylines=[0], ylim=ylim)
         return 0
-- 
2.43.0


From 14ea340b0c7f1848c6bd7386ff047cbe6c47e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:26 +0000
Subject: [PATCH 68/85] fix: label lines of binned plots with their own
 match-up series

---
 .../core/matchup/matchupVis/MatchUpVis.py              | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
index 80b293f..3a50905 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
@@ -328,6 +328,7 @@ class MatchUpVis:
             averages = []
             stds = []
             Xaverages = []
+            labels = []
 
             # Plot per match-up series
             for i, mu in enumerate(mus):
@@ -350,7 +351,7 @@ class MatchUpVis:
                     # Plot match-up series
                     fname_i = pjoin(directory, fname+"." + cov_name + "_" + sensor_2_name + "_binned." + mu_fn + ".pdf")
                     plot_scatter(fname_i, averages_i, Xaverages_i,
-                                 xlbl=cov_label+" - "+sensor_2_name, ylbl=title+" ("+matchup_labels[i]+")",
+                                 xlbl=cov_label+" - "+sensor_2_name, ylbl=title+" ("+matchup_labels[mu - 1]+")",
                                  title="", yerr=stds_i, xerr=None, txt=None,
                                  line='-', legend=None, solid_ylines=[0], ylim=ylim)
                     # Bin data by full limits
@@ -358,11 +359,12 @@ class MatchUpVis:
                     averages.append(averages_i[~isnan(averages_i)])
                     stds.append(stds_i[~isnan(averages_i)])
                     Xaverages.append(Xaverages_i[~isnan(averages_i)])
+                    labels.append(matchup_labels[mu - 1])
 
             # Plot X for all match-up series
             plot_scatter(pjoin(directory, fname + "." + cov_name + "_sensor_2_binned.pdf"), averages, Xaverages,
                          xlbl=cov_label + " - Sensor 2", ylbl=title, title="",
-                         yerr=stds, xerr=None, txt=None, line='-', legend=matchup_labels, legend_loc="outside",
+                         yerr=stds, xerr=None, txt=None, line='-', legend=labels, legend_loc="outside",
                          solid_ylines=[0], fig_size=(12, 8), ylim=ylim)
 
     def plot_Y_x_binned_line(self, directory, Y, x, x_name, x_label, title, fname, ylim=None, mus=None):
@@ -428,7 +430,7 @@ class MatchUpVis:
             # Plot match-up series data
             fname_i = pjoin(directory, fname + "." + x_name + "_" + sensor_2_name + "_binned." + mu_fn + ".pdf")
             plot_scatter(fname_i, averages_i, averages_x_i,
-                         xlbl=x_label + " - " + sensor_2_name, ylbl=title + " (" + matchup_labels[i] + ")",
+                         xlbl=x_label + " - " + sensor_2_name, ylbl=title + " (" + matchup_labels[mu - 1] + ")",
                          title="", yerr=stds_i, xerr=None, txt=None,
                          line='-', legend=None, solid_ylines=[0], ylim=ylim)
 
@@ -441,7 +443,7 @@ class MatchUpVis:
         # 3. Plot all match-up series together
         plot_scatter(pjoin(directory, fname + "." + x_name + "_sensor_2_binned.pdf"), averages, averages_x,
                      xlbl=x_label + " - Sensor 2", ylbl=title, title="",
-                     yerr=stds, xerr=None, txt=None, line='-', legend=matchup_labels, legend_loc="outside",
+                     yerr=stds, xerr=None, txt=None, line='-', legend=[matchup_labels[mu - 1] for mu in mus], legend_loc="outside",
                      solid_ylines=[0], fig_size=(12,8), ylim=ylim)
 
         return 0
-- 
2.43.0


From 3d936dcdaaaf0f7eecacadac6022b29aa3df6c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 69/85] fix: plot sensors with different numbers of variables

---
 .../core/matchup/matchupVis/MatchUpVis.py            | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
index 3a50905..963a8b5 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
@@ -136,8 +136,8 @@ class MatchUpVis:
                     Xmax_i.append(self.MatchUpData.getVariableDataMax(cov, sensor_2_name, mu))
                     Xmin_i.append(self.MatchUpData.getVariableDataMin(cov, sensor_2_name, mu))
 
-            Xmaxs.append(max(Xmax_i))
-            Xmins.append(min(Xmin_i))
+            Xmaxs.append(max(Xmax_i) if len(Xmax_i) > 0 else None)
+            Xmins.append(min(Xmin_i) if len(Xmin_i) > 0 else None)
 
         self.Xmaxs = Xmaxs
         self.Xmins = Xmins
@@ -337,14 +337,14 @@ class MatchUpVis:
                 i1 = MatchUpData.idx["cNm"][mu - 1]
                 i2 = MatchUpData.idx["cNm"][mu]
                 sensor_2_name = MatchUpData.idx['sensors'][MatchUpData.idx['Im'][mu - 1][1]]
-                cov_name = self.get_X_name(cov, sensor_2_name)
-                cov_label = "$"+self.get_X_label(cov, sensor_2_name) + "$ (Binned)"
                 mu_fn = matchup_fname_suffix[mu-1]
 
                 # Plot if sensor 2 of given match-up series has an cov-th X
                 sensor_2_m = MatchUpData.idx['sensor_ms'][MatchUpData.idx['Im'][mu - 1][1]]
                 if cov <= sensor_2_m:
                     X = MatchUpData.getVariableData(cov, sensor_2_name, mu)
+                    cov_name = self.get_X_name(cov, sensor_2_name)
+                    cov_label = "$"+self.get_X_label(cov, sensor_2_name) + "$ (Binned)"
 
                     # Bin data by match-up series limits
                     averages_i, stds_i, Xaverages_i = bin(Y[i1:i2], X, bins=50, X_range=[min(X), max(X)])
@@ -361,7 +361,9 @@ class MatchUpVis:
                     Xaverages.append(Xaverages_i[~isnan(averages_i)])
                     labels.append(matchup_labels[mu - 1])
 
-            # Plot X for all match-up series
+            # Plot X for all match-up series that have it
+            if len(averages) == 0:
+                continue
             plot_scatter(pjoin(directory, fname + "." + cov_name + "_sensor_2_binned.pdf"), averages, Xaverages,
                          xlbl=cov_label + " - Sensor 2", ylbl=title, title="",
                          yerr=stds, xerr=None, txt=None, line='-', legend=labels, legend_loc="outside",
-- 
2.43.0


From 5c15d4021bcf0c20fb2621e52ccb94b09889ffb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:36 +0000
Subject: [PATCH 70/85] fix: plot by additional variables with missing values

---
 .../harmonisation/core/matchup/matchupVis/MatchUpVis.py   | 8 ++++----
 harmonisation_eiv/harmonisation/core/utils/plots.py       | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
index 963a8b5..c90bf9d 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
@@ -11,7 +11,7 @@ from os.path import join as pjoin
 import matplotlib
 # Force matplotlib to not use any Xwindows backend.
 matplotlib.use('Agg')
-from numpy import isnan, sort, arange, concatenate
+from numpy import isnan, sort, arange, concatenate, nanmin, nanmax
 from numpy.random import rand
 
 '''___harmonisation Modules___'''
@@ -404,8 +404,8 @@ class MatchUpVis:
         matchup_labels = self.get_mu_labels()
         matchup_fname_suffix = self.get_mu_fname_suffix()
 
-        xmin = min(x)
-        xmax = max(x)
+        xmin = nanmin(x)
+        xmax = nanmax(x)
 
         # b. Initialise data lists
         averages = []
@@ -426,7 +426,7 @@ class MatchUpVis:
 
             # Bin by x for match-up series (match-up series data range)
             x_i = x[i1:i2]
-            x_i_range = [min(x_i), max(x_i)]
+            x_i_range = [nanmin(x_i), nanmax(x_i)]
             averages_i, stds_i, averages_x_i = bin(Y[i1:i2], x_i, bins=50, X_range=x_i_range)
 
             # Plot match-up series data
diff --git a/harmonisation_eiv/harmonisation/core/utils/plots.py b/harmonisation_eiv/harmonisation/core/utils/plots.py
index 839fc64..ea9cb4b 100644
--- a/harmonisation_eiv/harmonisation/core/utils/plots.py
+++ b/harmonisation_eiv/harmonisation/core/utils/plots.py
@@ -145,7 +145,7 @@ def plot_scatter(savePath, Y, X, xlbl=None, ylbl=None, title=None, yerr=None, xe
             ax.axvline(x=x, linewidth=0.7, color='k')
 
     # add error bars to data points
-    if (type(X) != list) and ((type(X[0]) != list) & (type(X[0]) != ndarray)):
+    if (type(X) != list) and ((len(X) == 0) or ((type(X[0]) != list) & (type(X[0]) != ndarray))):
         X = [X]
         Y = [Y]
         yerr = [yerr] if yerr is not None else None
-- 
2.43.0


From 1df2a3d3d3395b2fe4c95d6fc8392908dba3be26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:36 +0000
Subject: [PATCH 71/85] fix: raise the error of residuals that cannot be
 evaluated

---
 .../harmonisation/harmonisationVis/HarmonisationVis.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
index 785ab7f..bebc20f 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
@@ -108,7 +108,7 @@ class HarmonisationVis(MatchUpVis):
             try:
                 self.kres_harm_harm = self.get_L2_harm() - self.get_L1_harm() - self.MatchUpData.ks
             except:
-                return ValueError("Couldn't evaluate harmonised kres")
+                raise ValueError("Couldn't evaluate harmonised kres")
         return self.kres_harm_harm
 
     def get_kres_nom_harm(self):
@@ -117,7 +117,7 @@ class HarmonisationVis(MatchUpVis):
             try:
                 self.kres_nom_harm = self.get_L2_nom() - self.get_L1_harm() - self.MatchUpData.ks
             except:
-                return ValueError("Couldn't evaluate harmonised kres")
+                raise ValueError("Couldn't evaluate harmonised kres")
         return self.kres_nom_harm
 
     def get_L1_harm_musamples(self):
-- 
2.43.0


From 4126d9dea699ef6501e03d4ebc01f63284501b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:36 +0000
Subject: [PATCH 72/85] fix: let harm_comp_plot find its modules and arguments

---
 .../harmonisation/tools/HarmonisationCompPlottingOp.py        | 3 ++-
 harmonisation_eiv/harmonisation/tools/harm_comp_plot.py       | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/tools/HarmonisationCompPlottingOp.py b/harmonisation_eiv/harmonisation/tools/HarmonisationCompPlottingOp.py
index 30e8712..304a51f 100644
--- a/harmonisation_eiv/harmonisation/tools/HarmonisationCompPlottingOp.py
+++ b/harmonisation_eiv/harmonisation/tools/HarmonisationCompPlottingOp.py
@@ -9,7 +9,8 @@ Harmonsation Comparison Output Plotting Implementation
 '''___harmonisation Modules___'''
 from harmonisation.version import __version__, __tag__
 from common import *
-from harmonisation import open_matchup, HarmonisationResult, HarmonisationVis
+from harmonisation import open_matchup, HarmonisationResult
+from harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationVis.HarmonisationVis import HarmonisationVis
 
 
 '''___Authorship___'''
diff --git a/harmonisation_eiv/harmonisation/tools/harm_comp_plot.py b/harmonisation_eiv/harmonisation/tools/harm_comp_plot.py
index ab72d1d..095241a 100644
--- a/harmonisation_eiv/harmonisation/tools/harm_comp_plot.py
+++ b/harmonisation_eiv/harmonisation/tools/harm_comp_plot.py
@@ -44,8 +44,8 @@ def main():
     conf = {}
 
     # Initialise object
-    harm_comp_op = HarmonisationComparisonPlottingOp(dataset_paths=dataset_dir,
-                                                     sensor_data_path=sensor_data,
+    harm_comp_op = HarmonisationComparisonPlottingOp(dataset_dir=dataset_dir,
+                                                     sensor_data=sensor_data,
                                                      output_dir=output_dir)
 
     # Run algorithm
-- 
2.43.0


From aa3c46391627be62b9b0f4d7be6bb15cacd99abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 73/85] fix: state the number of match-up series of a data set

---
 .../harmonisation/core/matchup/matchupIO/MatchUp.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
index f94532d..79f4ce4 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
@@ -332,7 +332,7 @@ class MatchUp(object):
 
         string += "Sensors - "+str([str(sensor) for sensor in self.idx['sensors']])
         string += "\nTotal Match-Ups - " + str(self.idx['cNm'][-1])
-        string += "\nMatch-Up Series - " + str(len(self.idx['cNm']))
+        string += "\nMatch-Up Series - " + str(len(self.idx['Im']))
         string +="\nTotal Match-Ups - "+str(self.idx['cNm'][-1])
         string +="\nTotal Sensor State Data Values - "+str(self.idx['idx'][-1])+"\n"
 
-- 
2.43.0


From c5065dc0a285f501c44a2bdd9e2398a767dd7c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 74/85] fix: show the last K of a match-up series, not of the
 one before

---
 .../harmonisation/core/matchup/matchupIO/MatchUp.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
index 79f4ce4..a509f16 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
@@ -352,7 +352,7 @@ class MatchUp(object):
                 n_mu_sel = list(range(self.idx['Nm'][n_mu]))
             else:
                 shortened = True
-                n_mu_sel = [0,1,2,3,-1]
+                n_mu_sel = [0,1,2,3,Nm_mu-1]
 
             for i_pair, n_sensor in enumerate(Im):
                 string += "\n- " + str(self.idx['sensors'][n_sensor]) + " Sensor State Data \n"
-- 
2.43.0


From 9e24708877b28afdeb27495b55a84c80a4ca7c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 75/85] fix: show data sets without uncertainties

---
 .../harmonisation/core/matchup/matchupIO/MatchUp.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
index a509f16..cc13043 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
@@ -377,7 +377,7 @@ class MatchUp(object):
                                                           n_mu_i]) + ", "
                         string += "]\n"
 
-                if self.unc is not None:
+                if self.unc is not None and len(self.unc) > 0:
                     string += "\n"+str(self.idx['sensors'][n_sensor])+" Sensor State Data Uncertainty Types: "
                     string += "["
                     indices = [(i1, i2, i3) for i1, i2, i3 in zip(self.idx['n_sensor'], self.idx['n_mu'], self.idx['n_cov'])]
@@ -405,7 +405,7 @@ class MatchUp(object):
                     string += "{:.2f}".format(self.ks[i_start + n_mu_i]) + ", "
                     string += "]\n"
 
-            if self.unck is not None:
+            if self.unck is not None and len(self.unck) > 0:
                 string+="\nSeries K Uncertainty Type: "+str(self.unck[n_mu].typeID)
 
             string+="\n"
-- 
2.43.0


From 4aa56b05cb03f3290597f04843eeb2e88779619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:35 +0000
Subject: [PATCH 76/85] fix: import the sensor data of the file named, not of
 one of that name before

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index caefdbe..b18923c 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -573,7 +573,13 @@ class MatchUpReader:
 
         sys.path.insert(0, directory_sensor_data)
 
-        sensor_data = import_module(fname_sensor_data).SENSOR_DATA
+        # Import this file, not a module of the same name that has been imported before
+        imported_module = sys.modules.pop(fname_sensor_data, None)
+        try:
+            sensor_data = import_module(fname_sensor_data).SENSOR_DATA
+        finally:
+            if imported_module is not None:
+                sys.modules[fname_sensor_data] = imported_module
 
         return sensor_data
 
-- 
2.43.0


From 8d717f60d9f06687afb82109babb16f915e5a5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:55 +0000
Subject: [PATCH 77/85] fix: give times of match-ups in UTC wherever the
 computer is

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index b18923c..1dede2d 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -503,7 +503,7 @@ class MatchUpReader:
 
         dates = zeros(times.shape[0], dtype=datetime)
         for i, time in enumerate(times):
-            dates[i] = datetime.fromtimestamp(int(time))
+            dates[i] = datetime.utcfromtimestamp(int(time))
 
         return dates
 
-- 
2.43.0


From 967ef0ae2aeac298b7447f14a88d171c0d10634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:50 +0000
Subject: [PATCH 78/85] fix: open results of data sets that have 'res' in their
 names

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 9fb8665..85a3bab 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -196,7 +196,7 @@ class HarmonisationResult:
 
         harm_output_path = None
 
-        harm_output_path_rule = re.compile('harm(?:(?!.*res.*).*)\.nc')
+        harm_output_path_rule = re.compile('harm(?:(?!.*_res_.*).*)\.nc')
 
         for f in listdir(output_dir):
             if harm_output_path_rule.match(f):
@@ -224,7 +224,7 @@ class HarmonisationResult:
 
         harm_res_paths = []
 
-        harm_res_path_rule = re.compile('harm(?:(?=.*res.*).*)\.nc')
+        harm_res_path_rule = re.compile('harm(?:(?=.*_res_.*).*)\.nc')
 
         for f in sorted(listdir(output_dir)):
             if harm_res_path_rule.match(f):
-- 
2.43.0


From e5f0f47a7999a1016b6872fa119fe19062a4b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:41 +0000
Subject: [PATCH 79/85] fix: condition estimated by LSMR depended on the units
 of the matrix

---
 .../harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
index 9d3e63b..94266cf 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
@@ -408,8 +408,8 @@ class LSMRFramework(KrylovMethod):
             normA2        = normA2 + alpha*alpha
 
             # Estimate cond(A).
-            maxrbar       = max(maxrbar,rhobarold)
             if itn>1:
+              maxrbar     = max(maxrbar,rhobarold)
               minrbar     = min(minrbar,rhobarold)
             condA         = max(maxrbar,rhotemp)/min(minrbar,rhotemp)
 
-- 
2.43.0


From 1c3120efd32d2e11fbc34b7a53316f4d743cfdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:50 +0000
Subject: [PATCH 80/85] fix: norm of the matrix in MINRES included that of the
 right-hand side, so large ones were not solved

---
 .../harmonisation_eiv/pykrylov_minres.py                      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
index ab5929e..3e99587 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
@@ -253,11 +253,13 @@ class Minres(KrylovMethod):
                     istop = 6
                     break
                 beta   = sqrt(beta)
-                tnorm2 = tnorm2 + alfa**2 + oldb**2 + beta**2
+                tnorm2 = tnorm2 + alfa**2 + beta**2
 
                 if itn==1:                    # Initialize a few things.
                     if beta/beta1 <= 10*eps:  # beta2 = 0 or ~ 0.
                         istop = -1            # Terminate later.
+                else:
+                    tnorm2 = tnorm2 + oldb**2 # Not of beta1, the norm of b.
 
                     # tnorm2 = alfa**2  ??
                     gmax   = abs(alfa)        # alpha1
-- 
2.43.0


From c25beb4510337dfcd8d7d048e799281585710c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:50 +0000
Subject: [PATCH 81/85] fix: MINRES stopped at zero where the product of
 right-hand side and its image is zero

---
 .../harmonisation_eiv/pykrylov_minres.py                  | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
index 3e99587..c3612b4 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
@@ -261,10 +261,6 @@ class Minres(KrylovMethod):
                 else:
                     tnorm2 = tnorm2 + oldb**2 # Not of beta1, the norm of b.
 
-                    # tnorm2 = alfa**2  ??
-                    gmax   = abs(alfa)        # alpha1
-                    gmin   = gmax             # alpha1
-
                 # Apply previous rotation Qk-1 to get
                 #   [deltak epslnk+1] = [cs  sn][dbark    0   ]
                 #   [gbar k dbar k+1]   [sn -cs][alfak betak+1].
@@ -313,8 +309,8 @@ class Minres(KrylovMethod):
 
                 # Go round again.
 
-                gmax   = max(gmax, gamma)
-                gmin   = min(gmin, gamma)
+                gmax   = max(gmax, gamma) if itn > 1 else gamma
+                gmin   = min(gmin, gamma) if itn > 1 else gamma
                 z      = rhs1 / gamma
                 ynorm2 = z**2  +  ynorm2
                 rhs1   = rhs2 -  delta*z
-- 
2.43.0


From 5a5bf3ba04a7519408b7bc5c6412c88041417944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:50 +0000
Subject: [PATCH 82/85] fix: MINRES reported preconditioners that are not
 positive definite as too many iterations

---
 .../harmonisation_eiv/pykrylov_minres.py                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
index c3612b4..7be5503 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
@@ -250,7 +250,7 @@ class Minres(KrylovMethod):
                 oldb   = beta
                 beta   = dot(r2,y)
                 if beta < 0:
-                    istop = 6
+                    istop = 9
                     break
                 beta   = sqrt(beta)
                 tnorm2 = tnorm2 + alfa**2 + beta**2
-- 
2.43.0


From 82e3b048628714868b9055ecbefe4bc3e70fe64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:50 +0000
Subject: [PATCH 83/85] fix: residuals of earlier solutions were kept in the
 history of MINRES

---
 .../harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
index 7be5503..6feec8e 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
@@ -129,6 +129,7 @@ class Minres(KrylovMethod):
         store_iterates = kwargs.get('store_iterates', False)
         window = kwargs.get('window', 5)
 
+        self.residHistory = []     # Residual norms.
         self.dir_errors_window = []  # Direct error estimates.
         self.iterates = []
 
-- 
2.43.0


From c6429fb2dea1e6be526fc4e22fc2b4acb2ff340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:00 +0000
Subject: [PATCH 84/85] fix: norm of the solution reported by MINRES was that
 of its first iterate

---
 .../harmonisation_eiv/pykrylov_minres.py          | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
index 6feec8e..335d6d2 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
@@ -16,7 +16,7 @@ available at http://www.stanford.edu/group/SOL/software/minres.htm.
 from pykrylov_generic import KrylovMethod
 import numpy as np
 from numpy.linalg import norm
-from numpy import zeros, dot, empty, sqrt
+from numpy import zeros, dot, empty, inf, sqrt
 from pykrylov_tools_utils import check_symmetric, machine_epsilon
 
 
@@ -201,8 +201,8 @@ class Minres(KrylovMethod):
         # Initialize other quantities.
         # ------------------------------------------------------------------
         oldb   = 0.0;     beta   = beta1;   dbar   = 0.0;     epsln  = 0.0
-        qrnorm = beta1;   phibar = beta1;   rhs1   = beta1;   Arnorm = 0.0
-        rhs2   = 0.0;     tnorm2 = 0.0;     ynorm2 = 0.0
+        qrnorm = beta1;   phibar = beta1;   Arnorm = 0.0
+        tnorm2 = 0.0
         cs     = -1.0;    sn     = 0.0
         w  = zeros(n, dtype=result_type)
         w2 = zeros(n, dtype=result_type)
@@ -312,15 +312,11 @@ class Minres(KrylovMethod):
 
                 gmax   = max(gmax, gamma) if itn > 1 else gamma
                 gmin   = min(gmin, gamma) if itn > 1 else gamma
-                z      = rhs1 / gamma
-                ynorm2 = z**2  +  ynorm2
-                rhs1   = rhs2 -  delta*z
-                rhs2   =      -  epsln*z
 
                 # Estimate various norms and test for convergence.
 
                 Anorm  = sqrt(tnorm2)
-                ynorm  = sqrt(ynorm2)
+                ynorm  = norm(x)
                 epsa   = Anorm * eps
                 epsx   = Anorm * ynorm * eps
                 epsr   = Anorm * ynorm * rtol
@@ -329,7 +325,8 @@ class Minres(KrylovMethod):
 
                 qrnorm = phibar
                 rnorm  = qrnorm
-                test1  = rnorm / (Anorm*ynorm)     #  ||r|| / (||A|| ||x||)
+                test1  = inf                       #  ||r|| / (||A|| ||x||)
+                if Anorm*ynorm > 0: test1 = rnorm / (Anorm*ynorm)
                 test2  = root  /  Anorm            # ||Ar|| / (||A|| ||r||)
 
                 self.residHistory.append(rnorm)
-- 
2.43.0


From d5fec4a6137dc2ce4394f790616b47da3bd14cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:45 +0000
Subject: [PATCH 85/85] fix: reweighting of the preconditioner ended early for
 parameters of small values

---
 .../harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
index bd58417..1a83496 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
@@ -158,7 +158,7 @@ class PCAlgo:
 
             # Check on convergence
             norma = norm(a - a0)
-            if norma < tol:
+            if norma <= tol * min(1., norm(a)):
                 conv = True
 
             # Update current approximation and number of iterations
-- 
2.43.0

