From b56a69b0a2cb883155b63689d5ef21c2a7c8f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 01/25] fix: add_uniform_MP_distrib resets the last-impact time
 of the MPs it adds, not of the slots after them

---
 MP_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index 485c2ce..0ccda37 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -480,11 +480,11 @@ class MP_system:
                 self.vz_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand() - 0.5)
                 self.nel_mp[self.N_mp:self.N_mp + Nint_new_MP] = self.nel_mp_ref
 
-                self.N_mp = int(self.N_mp + Nint_new_MP)
-
                 if self.flag_lifetime_hist:
                     self.t_last_impact[self.N_mp:self.N_mp + Nint_new_MP] = -1
 
+                self.N_mp = int(self.N_mp + Nint_new_MP)
+
     def add_uniform_ele_density(self, n_ele, E_init, x_max, x_min, y_max, y_min):
 
         if x_max is None:
-- 
2.43.0


From 6e373910480ebc6f713417276972556227e384a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 02/25] fix: init_from_dict clears the charge left in slots
 beyond the restored macroparticles

---
 MP_system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MP_system.py b/MP_system.py
index 0ccda37..4f5f10a 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -592,4 +592,5 @@ class MP_system:
 
     def init_from_dict(self, dict_MP):
         self.N_mp = 0
+        self.nel_mp[:] = 0.
         self.add_from_file(dict_MP)
-- 
2.43.0


From f25836c6a759454ba7a7098f7700e8b249120a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 03/25] fix: flat low energy model: do not alias the yield and
 its true secondary part, so that the reflected part is not always zero

---
 sec_emission_model_flat_low_ener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sec_emission_model_flat_low_ener.py b/sec_emission_model_flat_low_ener.py
index 7da09ad..53256c0 100644
--- a/sec_emission_model_flat_low_ener.py
+++ b/sec_emission_model_flat_low_ener.py
@@ -66,7 +66,7 @@ def yield_fun2(E, costheta, Emax, del_max, R0):
 
     true_sec = del_max_tilde * (s * x) / (s - 1. + x**s)
 
-    delta = true_sec
+    delta = true_sec.copy()
 
     mask_change = logical_and(delta < R0, E < Emax)
     delta[mask_change] = R0
-- 
2.43.0


From c3bd2ffc66fa0ba465cb0b192756ab40b1b0b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 04/25] fix: load the SEY table from the path that was found,
 so that tables in the sey_files folder can be used

---
 sec_emission_model_from_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sec_emission_model_from_file.py b/sec_emission_model_from_file.py
index d4faef4..696b6f7 100644
--- a/sec_emission_model_from_file.py
+++ b/sec_emission_model_from_file.py
@@ -100,7 +100,7 @@ class SEY_model_from_file(SEY_model_ECLOUD):
             sey_file_real = existing_files[0]
             print('Secondary emission from file %s' % sey_file_real)
 
-            sey_properties = sio.loadmat(sey_file)
+            sey_properties = sio.loadmat(sey_file_real)
 
         energy_eV = sey_properties['energy_eV'].squeeze()
         sey_true = sey_properties['sey_true'].squeeze()
-- 
2.43.0


From a2cf4befa306cad2c1df4b26b579ad51aacc53dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 05/25] fix: use the actual spacing of the SEY table for the
 interpolation instead of the one rounded to 3 decimals

---
 sec_emission_model_from_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_from_file.py b/sec_emission_model_from_file.py
index 696b6f7..815cb9c 100644
--- a/sec_emission_model_from_file.py
+++ b/sec_emission_model_from_file.py
@@ -111,9 +111,9 @@ class SEY_model_from_file(SEY_model_ECLOUD):
         extrapolate_const_elast = float(sey_properties['extrapolate_const_elast'].squeeze())
 
         diff_e = np.round(np.diff(energy_eV), 3)
-        delta_e = diff_e[0]
-        if np.any(diff_e != delta_e):
-            raise ValueError('Energy in file %s is not equally spaced.' % sey_file_real)
+        if np.any(diff_e != diff_e[0]):
+            raise ValueError('Energy in SEY table is not equally spaced.')
+        delta_e = (energy_eV[-1] - energy_eV[0]) / (len(energy_eV) - 1)
 
         # sey_diff is needed by the interp function
         # A 0 is appended because this last element is never needed but the array must have the correct shape
-- 
2.43.0


From 9ff2669949300877ef1a0b87e4f0dc7288f9d444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 06/25] fix: Furman-Pivi: true secondaries get their emission
 velocity also when no extra macroparticle is created in the step

---
 sec_emission_model_furman_pivi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_furman_pivi.py b/sec_emission_model_furman_pivi.py
index 50319a9..c6d17c0 100644
--- a/sec_emission_model_furman_pivi.py
+++ b/sec_emission_model_furman_pivi.py
@@ -480,9 +480,6 @@ class SEY_model_furman_pivi():
 
                         N_violations = np.sum(flag_violation)
 
-                # Replace velocities
-                vx_replace[flag_truesec_and_above_zero], vy_replace[flag_truesec_and_above_zero], vz_replace[flag_truesec_and_above_zero] = self.angle_dist_func(
-                    N_true_sec, En_truesec_eV, Norm_x[flag_truesec_and_above_zero], Norm_y[flag_truesec_and_above_zero], mass)
                 # New velocities
                 vx_new_MPs, vy_new_MPs, vz_new_MPs = self.angle_dist_func(
                     n_add_total, En_truesec_eV_add, norm_x_add, norm_y_add, mass)
@@ -492,6 +489,10 @@ class SEY_model_furman_pivi():
                 else:
                     i_seg_new_MPs = None
 
+            # Replace velocities
+            vx_replace[flag_truesec_and_above_zero], vy_replace[flag_truesec_and_above_zero], vz_replace[flag_truesec_and_above_zero] = self.angle_dist_func(
+                N_true_sec, En_truesec_eV, Norm_x[flag_truesec_and_above_zero], Norm_y[flag_truesec_and_above_zero], mass)
+
             # Handle absorbed MPs
             flag_truesec_and_zero = flag_truesec & (n_emit_truesec_MPs == 0)
             nel_replace[flag_truesec_and_zero] = 0.0
-- 
2.43.0


From 8375d9268695b599f69f72ab9ac9f5f931553a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:13 +0000
Subject: [PATCH 07/25] fix: non-uniform SEY models do not overwrite the
 segment parameters of the chamber with their own defaults

---
 sec_emission_model_ECLOUD_nunif.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_ECLOUD_nunif.py b/sec_emission_model_ECLOUD_nunif.py
index 3b36ac5..c2ff36c 100644
--- a/sec_emission_model_ECLOUD_nunif.py
+++ b/sec_emission_model_ECLOUD_nunif.py
@@ -99,9 +99,9 @@ class SEY_model_ECLOUD_non_unif(SEY_model_ECLOUD):
             else:
                 self.angle_dist_func = None
 
-            self.del_max_segments = np.float64(chamb.del_max_segments)
-            self.R0_segments = np.float64(chamb.R0_segments)
-            self.Emax_segments = np.float64(chamb.Emax_segments)
+            self.del_max_segments = np.array(chamb.del_max_segments, dtype=float)
+            self.R0_segments = np.array(chamb.R0_segments, dtype=float)
+            self.Emax_segments = np.array(chamb.Emax_segments, dtype=float)
 
             self.del_max_segments[chamb.del_max_segments < 0.] = del_max
             self.R0_segments[chamb.R0_segments < 0.] = R0
-- 
2.43.0


From cbd7591268a582bd607402b828da528e8c733da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:52 +0000
Subject: [PATCH 08/25] fix: polygon: find the edge hit by a trajectory ending
 exactly on the wall

---
 geom_impact_poly_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geom_impact_poly_cython.pyx b/geom_impact_poly_cython.pyx
index c3fe076..0d5d435 100644
--- a/geom_impact_poly_cython.pyx
+++ b/geom_impact_poly_cython.pyx
@@ -54,7 +54,7 @@ cpdef impact_point_and_normal(double[::1] x_in, double[::1] y_in, double[::1] z_
 
             if t_border>=0. and t_border<=1.:
                 t_ii = (Nx[ii]*(Vx[ii]-x_in_curr)+Ny[ii]*(Vy[ii]-y_in_curr)) /(Nx[ii]*(x_out_curr-x_in_curr)+Ny[ii]*(y_out_curr-y_in_curr))
-                if t_ii>=0. and t_ii<t_min_curr:
+                if t_ii>=0. and (t_ii<t_min_curr or (not fould_curr and t_ii==1.)):
                     t_min_curr=t_ii
                     fould_curr = True
                     i_found_curr = ii
-- 
2.43.0


From e52b3c67dbfbba57bf629935bf796dd6af826661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:52 +0000
Subject: [PATCH 09/25] fix: at least one substep when a time step of a
 non-uniform profile is shorter than half a substep

---
 buildup_simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index d345819..b76e649 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -320,7 +320,9 @@ class BuildupSimulation(object):
             # Non-uniform beam-profile
             flag_substeps = True
             Dt_substep_target = cloud.dynamics.Dt / cloud.dynamics.N_sub_steps
-            N_substeps_curr = int(np.round(beamtim.Dt_curr / Dt_substep_target))
+            N_substeps_curr = max(
+                1, int(np.round(beamtim.Dt_curr / Dt_substep_target))
+            )
             Dt_substep_curr = beamtim.Dt_curr / N_substeps_curr
 
         elif hasattr(cloud.dynamics, "N_sub_steps"):
-- 
2.43.0


From 6c9b525d87a5e8af1fcceb9515e1064628aecca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 10/25] fix: multipole tracker uses the number of substeps of
 its own cloud

---
 init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 0485389..6a622ef 100644
--- a/init.py
+++ b/init.py
@@ -510,7 +510,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             dynamics = dyngen.pusher_strong_B_generalized(cc.Dt, cc.B0x, cc.B0y,
                                                           cc.B_map_file, cc.fact_Bmap, cc.B_zero_thrhld)
         elif cc.track_method == 'BorisMultipole':
-            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=cc.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
+            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=thiscloud.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
                         B0x=cc.B0x, B0y=cc.B0y, B0z=cc.B0z)
         else:
             raise inp_spec.PyECLOUD_ConfigException("track_method should be 'Boris' or 'StrongBdip' or 'StrongBgen' or 'BorisMultipole'")
-- 
2.43.0


From 5faf937e86cc31a0b45f8c5a7c889e80dfdc07d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 11/25] fix: trackers and savers use the time step of a uniform
 beam profile loaded from file

---
 init.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 6a622ef..7be9ef3 100644
--- a/init.py
+++ b/init.py
@@ -226,7 +226,10 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                                          chamb=chamb, sigmax=b_par.sigmax, sigmay=b_par.sigmay,
                                          x_beam_pos=b_par.x_beam_pos, y_beam_pos=b_par.y_beam_pos, save_beam_field_file_as=b_par.save_beam_field_file_as,
                                          Nx=b_par.Nx, Ny=b_par.Ny, nimag=b_par.nimag, progress_mapgen_file=progress_mapgen_file)
-        
+
+        # A uniform profile from file comes with its own time step
+        cc.Dt = beamtim.Dt
+
         if beamtim.N_pass_tot % cc.save_mat_every != 0:
             raise ValueError("Variable save_mat_every=" + str(cc.save_mat_every) + " does not divide the total number of passages=" + str(beamtim.N_pass_tot))
 
-- 
2.43.0


From cc2626c5baece8f30e7b929dc779cb0c9d6a403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 12/25] fix: look for the profile file of a secondary beam by
 its own name

---
 init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 7be9ef3..9f862f9 100644
--- a/init.py
+++ b/init.py
@@ -243,7 +243,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                 try:
                     if os.path.isfile(pyecl_input_folder + '/' + sb_par.beam_long_prof_file):
                         sbeam_long_prof_file_path = pyecl_input_folder + '/' + sb_par.beam_long_prof_file
-                    elif os.path.isfile(pyecl_input_folder + '/' + b_par.beam_long_prof_file + '.mat'):
+                    elif os.path.isfile(pyecl_input_folder + '/' + sb_par.beam_long_prof_file + '.mat'):
                         sbeam_long_prof_file_path = pyecl_input_folder + '/' + sb_par.beam_long_prof_file + '.mat'
                     else:
                         sbeam_long_prof_file_path = sb_par.beam_long_prof_file
-- 
2.43.0


From 8141d628fdc41eabfb622cbfafa85c37d584672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:01 +0000
Subject: [PATCH 13/25] fix: saver: restore the time axes of the passages and
 of the lifetime histogram when reloading an output

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 11aacca..5de2a6b 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -624,8 +624,8 @@ class pyecloud_saver:
                                     'nel_impact_hist_scrub',
                                     'nel_impact_hist_tot',
                                     'cos_angle_hist',
-                                    't_hist'
-                                    'lifetime_hist'
+                                    't_hist',
+                                    'lifetime_hist',
                                     't_lifetime_hist']
 
         not_time_dependent_list = ['xg_hist',
-- 
2.43.0


From bd00ddfa558b6446c490384a80ceef1571f44560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:01 +0000
Subject: [PATCH 14/25] fix: saver: keep the sample of the restart time when
 reloading an output

---
 pyecloud_saver.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 5de2a6b..0fe74dc 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -587,9 +587,10 @@ class pyecloud_saver:
         ob = mlm.myloadmat_to_obj(load_output_folder + '/' + self.fname_only_main_outp)
         dict_history = mlm.obj_to_dict(ob)
 
-        idx_t = (np.abs(dict_history['t'] - last_t)).argmin()  # index closest to last_t
-        idx_t_hist = (np.abs(dict_history['t_hist'] - last_t)).argmin()
-        idx_t_sc_video = (np.abs(dict_history['t_sc_video'] - last_t)).argmin()
+        # number of samples recorded up to last_t (included)
+        n_t = np.sum(dict_history['t'] <= last_t)
+        n_t_hist = np.sum(dict_history['t_hist'] <= last_t)
+        n_t_sc_video = np.sum(dict_history['t_sc_video'] <= last_t)
 
         # Delete everything in Pyecltest.mat recorded after the last checkpoint
         saved_every_timestep_list = ['En_emit_eV_time',
@@ -667,7 +668,7 @@ class pyecloud_saver:
                 if dict_history[var].shape == np.array(0).shape:
                     dict_restored[var] = dict_history[var]
                 else:
-                    dict_restored[var] = dict_history[var][: idx_t]
+                    dict_restored[var] = dict_history[var][: n_t]
         self.i_last_save = len(dict_restored['Nel_timep']) - 1
 
         for var in saved_every_passage_list:
@@ -675,7 +676,7 @@ class pyecloud_saver:
                 if dict_history[var].shape == np.array(0).shape:
                     dict_restored[var] = dict_history[var].tolist()
                 else:
-                    dict_restored[var] = dict_history[var][: idx_t_hist + 1].tolist()
+                    dict_restored[var] = dict_history[var][: n_t_hist].tolist()
 
         for var in not_time_dependent_list:
             if var in list(dict_history.keys()):
@@ -686,7 +687,7 @@ class pyecloud_saver:
 
         # Treating t_sc_video separately because of different indicies
         if 't_sc_video' in list(dict_history.keys()):
-            dict_restored['t_sc_video'] = dict_history['t_sc_video'][: idx_t_sc_video + 1].tolist()
+            dict_restored['t_sc_video'] = dict_history['t_sc_video'][: n_t_sc_video].tolist()
 
         # Restore this pyecloud_saver object with values from dict_restored
         for var in list(dict_restored.keys()):
-- 
2.43.0


From 5ee3a38184d44cf9390d8201ae142a76fbe973d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:16 +0000
Subject: [PATCH 15/25] fix: saver: electron density at probes is saved up to
 the last recorded step

---
 pyecloud_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 0fe74dc..408aa9a 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -895,7 +895,7 @@ class pyecloud_saver:
             dict_sbs_data['En_electric_eV_time'] = self.En_electric_eV_time[:self.i_last_save + 1]
 
         if self.flag_el_dens_probes:
-            dict_sbs_data['el_dens_at_probes'] = self.el_dens_at_probes[:, :self.i_last_save]
+            dict_sbs_data['el_dens_at_probes'] = self.el_dens_at_probes[:, :self.i_last_save + 1]
 
         for kk in list(self.sbs_custom_data.keys()):
             dict_sbs_data[kk] = self.sbs_custom_data[kk][:self.i_last_save + 1]
-- 
2.43.0


From f4bb4adb7ff9079c1f13a7ec6041005c7fb06ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:16 +0000
Subject: [PATCH 16/25] fix: saver: detailed histogram of a passage without
 macroparticles is empty

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 408aa9a..d66cf33 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -378,6 +378,8 @@ class pyecloud_saver:
     def _pass_by_pass_data_save(self, MP_e, impact_man, beamtim, buildup_sim):
         #update histograms
         self.nel_hist_line = 0.0 * self.nel_hist_line
+        if self.flag_hist_det:
+            self.nel_hist_det_line = 0.0 * self.nel_hist_det_line
         if MP_e.N_mp > 0:
             histf.compute_hist(MP_e.x_mp[0:MP_e.N_mp], MP_e.nel_mp[0:MP_e.N_mp], impact_man.bias_x_hist, impact_man.Dx_hist, self.nel_hist_line)
 
@@ -388,8 +390,6 @@ class pyecloud_saver:
                 mask_det_hist_y = np.logical_and(MP_e.y_mp[0:MP_e.N_mp] > self.y_min_hist_det, MP_e.y_mp[0:MP_e.N_mp] < self.y_max_hist_det)
                 mask_det_hist = np.logical_and(mask_det_hist_x, mask_det_hist_y)
 
-                self.nel_hist_det_line = 0.0 * self.nel_hist_det_line
-
                 if np.sum(mask_det_hist) > 0:
                     #print 'here 2'
                     histf.compute_hist(MP_e.x_mp[0:MP_e.N_mp][mask_det_hist], MP_e.nel_mp[0:MP_e.N_mp][mask_det_hist],
-- 
2.43.0


From 3470121b4bb61f1d56f176af00fe43558737c1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:16 +0000
Subject: [PATCH 17/25] fix: saver: folder of the charge density video of a
 cloud

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index d66cf33..e03dab8 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -1058,7 +1058,7 @@ class pyecloud_saver:
         # save rho video for cloud
         if self.flag_video and self.flag_multiple_clouds:
             if not os.path.exists(self.folder_outp + '/rho_video_%s'%(self.cloud_name)):
-                os.makedirs(self.folder_outp + 'rho_video_%s'%(self.cloud_name))
+                os.makedirs(self.folder_outp + '/rho_video_%s'%(self.cloud_name))
             if self.rho_video_cloud is None:
                     self.rho_video_cloud = []
                     self.t_video_cloud = []
@@ -1071,7 +1071,7 @@ class pyecloud_saver:
             if beamtim.flag_new_bunch_pass:
                 self.rho_video_cloud = np.array(self.rho_video_cloud)
                 self.t_video_cloud = np.array(self.t_video_cloud)
-                filename_rho = self.folder_outp + 'rho_video_%s/rho_pass%d.mat'%(self.cloud_name, beamtim.pass_numb - 1)
+                filename_rho = self.folder_outp + '/rho_video_%s/rho_pass%d.mat'%(self.cloud_name, beamtim.pass_numb - 1)
                 print('Saving %s'%filename_rho)
                 sio.savemat(filename_rho, {'xg_sc': spacech_ele.xg, 'yg_sc': spacech_ele.yg, 't_video': self.t_video_cloud, 'rho_video': self.rho_video_cloud}, oned_as='row')
                 print('Done')
-- 
2.43.0


From 680ac073782309aa2b6179e11f53e22e1360b2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:16 +0000
Subject: [PATCH 18/25] fix: saving the state of an electromagnetic simulation
 does not need the removed As potential

---
 buildup_simulation.py | 3 +--
 pyecloud_saver.py     | 3 ---
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index b76e649..17d8c10 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -518,10 +518,9 @@ class BuildupSimulation(object):
         self.spacech_ele.PyPICobj.build_sparse_solver()
 
         if self.spacech_ele.flag_em_tracking:
-            print("Restoring PyPIC Ax, Ay and As state objects...")
+            print("Restoring PyPIC Ax and Ay state objects...")
             self.spacech_ele.state_Ax = self.spacech_ele.PyPICobj.get_state_object()
             self.spacech_ele.state_Ay = self.spacech_ele.PyPICobj.get_state_object()
-            self.spacech_ele.state_As = self.spacech_ele.PyPICobj.get_state_object()
 
         print("Done reload.")
         return dict_state
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index e03dab8..56c773d 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -963,12 +963,10 @@ class pyecloud_saver:
             if spacech_ele.flag_em_tracking:
                 temp_state_Ax = spacech_ele.state_Ax
                 temp_state_Ay = spacech_ele.state_Ay
-                temp_state_As = spacech_ele.state_As
                 temp_state_Ax_old = spacech_ele.state_Ax_old
                 temp_state_Ay_old = spacech_ele.state_Ay_old
                 spacech_ele.state_Ax = None
                 spacech_ele.state_Ay = None
-                spacech_ele.state_As = None
                 spacech_ele.state_Ax_old = None
                 spacech_ele.state_Ay_old = None
 
@@ -1005,7 +1003,6 @@ class pyecloud_saver:
             if spacech_ele.flag_em_tracking:
                 spacech_ele.state_Ax = temp_state_Ax
                 spacech_ele.state_Ay = temp_state_Ay
-                spacech_ele.state_As = temp_state_As
                 spacech_ele.state_Ax_old = temp_state_Ax_old
                 spacech_ele.state_Ay_old = temp_state_Ay_old
 
-- 
2.43.0


From 65b9c1766a581bb084bab8855795a92fd81f43bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:04 +0000
Subject: [PATCH 19/25] fix: saver: restore each quantity up to the restart
 time on its own time axis

---
 pyecloud_saver.py | 78 +++++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 30 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 56c773d..3f8ef9c 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -587,10 +587,16 @@ class pyecloud_saver:
         ob = mlm.myloadmat_to_obj(load_output_folder + '/' + self.fname_only_main_outp)
         dict_history = mlm.obj_to_dict(ob)
 
-        # number of samples recorded up to last_t (included)
-        n_t = np.sum(dict_history['t'] <= last_t)
-        n_t_hist = np.sum(dict_history['t_hist'] <= last_t)
-        n_t_sc_video = np.sum(dict_history['t_sc_video'] <= last_t)
+        def up_to_last_t(var, t_name):
+            # samples of var recorded up to last_t (included), on the time axis t_name
+            t_recorded = np.atleast_1d(dict_history[t_name])
+            data = dict_history[var]
+            if len(t_recorded) == 1 and np.ndim(getattr(self, var)) > 0:
+                # A time axis with a single sample is squeezed when loading the file
+                data = data[np.newaxis]
+            if data.shape == np.array(0).shape:
+                return data  # not recorded
+            return data[:np.sum(t_recorded <= last_t)]
 
         # Delete everything in Pyecltest.mat recorded after the last checkpoint
         saved_every_timestep_list = ['En_emit_eV_time',
@@ -609,10 +615,7 @@ class pyecloud_saver:
                                      'En_electric_eV_time',
                                      't']
 
-        saved_every_passage_list = ['En_hist',
-                                    'all_Ekin_hist',
-                                    't_En_hist',
-                                    'N_mp_corrected_pass',
+        saved_every_passage_list = ['N_mp_corrected_pass',
                                     'N_mp_impact_pass',
                                     'N_mp_pass',
                                     'N_mp_ref_pass',
@@ -624,10 +627,18 @@ class pyecloud_saver:
                                     'nel_hist_emit_seg',
                                     'nel_impact_hist_scrub',
                                     'nel_impact_hist_tot',
+                                    't_hist']
+
+        saved_every_En_hist_list = ['En_hist',
+                                    'all_Ekin_hist',
                                     'cos_angle_hist',
-                                    't_hist',
-                                    'lifetime_hist',
-                                    't_lifetime_hist']
+                                    't_En_hist']
+
+        saved_every_lifetime_hist_list = ['lifetime_hist',
+                                          't_lifetime_hist']
+
+        saved_every_recomputation_list = ['t_sc_video',
+                                          'U_sc_eV']
 
         not_time_dependent_list = ['xg_hist',
                                    'xg_hist_det',
@@ -639,7 +650,6 @@ class pyecloud_saver:
                                    'y_el_dens_probes',
                                    'r_el_dens_probes',
                                    'xg_hist_cos_angle',
-                                   'el_dens_at_probes',
                                    'dec_fact_out',
                                    'chamber_area',
                                    'sey_test_del_true_mat',
@@ -649,15 +659,13 @@ class pyecloud_saver:
                                    'sey_test_cos_theta',
                                    'ene_dist_test_cos_theta',
                                    'ene_dist_test_E_impact_eV',
-                                   'emit_ene_dist_test',
-                                   'U_sc_eV'
+                                   'emit_ene_dist_test'
                                    ]
 
         if self.flag_lifetime_hist:
             not_time_dependent_list.append('lifetime_g_hist')
 
-        should_be_list_list = ['U_sc_eV',
-                               'x_el_dens_probes',
+        should_be_list_list = ['x_el_dens_probes',
                                'y_el_dens_probes',
                                'r_el_dens_probes'
                                ]
@@ -665,18 +673,32 @@ class pyecloud_saver:
         dict_restored = {}
         for var in saved_every_timestep_list:
             if var in list(dict_history.keys()):
-                if dict_history[var].shape == np.array(0).shape:
-                    dict_restored[var] = dict_history[var]
-                else:
-                    dict_restored[var] = dict_history[var][: n_t]
+                dict_restored[var] = up_to_last_t(var, 't')
         self.i_last_save = len(dict_restored['Nel_timep']) - 1
+        self.t_last_save = dict_restored['t'][-1]
 
-        for var in saved_every_passage_list:
-            if var in list(dict_history.keys()):
-                if dict_history[var].shape == np.array(0).shape:
-                    dict_restored[var] = dict_history[var].tolist()
-                else:
-                    dict_restored[var] = dict_history[var][: n_t_hist].tolist()
+        if self.flag_el_dens_probes:
+            el_dens_at_probes = dict_history['el_dens_at_probes'].reshape((self.N_el_dens_probes, -1))
+            dict_restored['el_dens_at_probes'] = el_dens_at_probes[:, :self.i_last_save + 1]
+
+        for t_name, var_list in [('t_hist', saved_every_passage_list),
+                                 ('t_En_hist', saved_every_En_hist_list),
+                                 ('t_lifetime_hist', saved_every_lifetime_hist_list),
+                                 ('t_sc_video', saved_every_recomputation_list)]:
+            for var in var_list:
+                if var in list(dict_history.keys()):
+                    dict_restored[var] = up_to_last_t(var, t_name).tolist()
+
+        # Energy histogram of each segment
+        if np.ndim(self.En_hist_seg) > 0:
+            n_En_hist = np.size(dict_history['t_En_hist'])
+            En_hist_seg = dict_history['En_hist_seg'].reshape((len(self.En_hist_seg), n_En_hist, -1))
+            dict_restored['En_hist_seg'] = [list(hh[:len(dict_restored['t_En_hist'])]) for hh in En_hist_seg]
+
+        # Custom pass-by-pass data
+        n_t_hist = len(dict_restored['t_hist'])
+        for kk in list(self.pbp_custom_data.keys()):
+            self.pbp_custom_data[kk] = list(np.atleast_1d(dict_history[kk])[:n_t_hist])
 
         for var in not_time_dependent_list:
             if var in list(dict_history.keys()):
@@ -685,10 +707,6 @@ class pyecloud_saver:
                 else:
                     dict_restored[var] = dict_history[var]
 
-        # Treating t_sc_video separately because of different indicies
-        if 't_sc_video' in list(dict_history.keys()):
-            dict_restored['t_sc_video'] = dict_history['t_sc_video'][: n_t_sc_video].tolist()
-
         # Restore this pyecloud_saver object with values from dict_restored
         for var in list(dict_restored.keys()):
             setattr(self, var, dict_restored[var])
-- 
2.43.0


From af0ed44a87b1f7049c950da7b933d9d7cdf09f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:21 +0000
Subject: [PATCH 20/25] fix: restart from checkpoint keeps the schedule of the
 lifetime histogram

---
 buildup_simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 17d8c10..5df28d3 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -546,3 +546,7 @@ class BuildupSimulation(object):
             cloud.pyeclsaver.i_checkp = i_checkp + 1
             cloud.pyeclsaver.t_last_checkp = self.beamtim.tt_curr
             cloud.pyeclsaver.t_last_En_hist = dict_state["t_last_En_hist"]
+            if cloud.pyeclsaver.flag_lifetime_hist:
+                cloud.pyeclsaver.t_last_lifetime_hist = dict_state[
+                    "t_last_lifetime_hist"
+                ]
-- 
2.43.0


From 1dcb59e155c535206294bdf63b4fbdc6294791f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:21 +0000
Subject: [PATCH 21/25] fix: restart from checkpoint keeps what was accumulated
 since the last recorded step

---
 buildup_simulation.py |  5 ++++-
 pyecloud_saver.py     | 12 +++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 5df28d3..54f0952 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -541,8 +541,11 @@ class BuildupSimulation(object):
             load_from_folder=load_from_folder,
         )
 
-        for cloud in self.cloud_list:
+        for i_cloud, cloud in enumerate(self.cloud_list):
             cloud.pyeclsaver.load_from_output(last_t=self.beamtim.tt_curr)
+            cloud.pyeclsaver.set_last_step_group(
+                dict_state["last_step_group_list"][i_cloud]
+            )
             cloud.pyeclsaver.i_checkp = i_checkp + 1
             cloud.pyeclsaver.t_last_checkp = self.beamtim.tt_curr
             cloud.pyeclsaver.t_last_En_hist = dict_state["t_last_En_hist"]
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 3f8ef9c..a1ee369 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -887,6 +887,15 @@ class pyecloud_saver:
                 for kk in list(self.step_by_step_custom_observables.keys()):
                     self.sbs_custom_data[kk][self.i_last_save] = self.step_by_step_custom_observables[kk](buildup_sim)
 
+    def get_last_step_group(self):
+        # Quantities accumulated since the last recorded step
+        return (self.Nel_impact_last_step_group, self.Nel_emit_last_step_group,
+                self.En_imp_last_step_group_eV, self.En_emit_last_step_group_eV)
+
+    def set_last_step_group(self, last_step_group):
+        (self.Nel_impact_last_step_group, self.Nel_emit_last_step_group,
+            self.En_imp_last_step_group_eV, self.En_emit_last_step_group_eV) = last_step_group
+
     def _stepbystep_get_dict(self):
         dict_sbs_data = {
             't': self.t[:self.i_last_save + 1],
@@ -1003,7 +1012,8 @@ class pyecloud_saver:
                 'sec_beams_list': sec_beams_list,
                 'flag_multiple_clouds': self.flag_multiple_clouds,
                 'cloud_list': cloud_list,
-                't_last_En_hist': self.t_last_En_hist}
+                't_last_En_hist': self.t_last_En_hist,
+                'last_step_group_list': [saver.get_last_step_group() for saver in temp_saver_list]}
 
             if self.flag_lifetime_hist:
                 dict_state['t_last_lifetime_hist'] = self.t_last_lifetime_hist
-- 
2.43.0


From e4c0cacc003ecd23344cbf4655127e013adb0c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:21 +0000
Subject: [PATCH 22/25] fix: restart from checkpoint does the cleaning and
 regenerations of the passage of the checkpoint

---
 buildup_simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 54f0952..1d8370d 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -553,3 +553,8 @@ class BuildupSimulation(object):
                 cloud.pyeclsaver.t_last_lifetime_hist = dict_state[
                     "t_last_lifetime_hist"
                 ]
+
+        # The checkpoint was saved before the cleaning of its bunch passage
+        self._MP_cleaning_and_regenerations(
+            self.beamtim, skip_MP_cleaning=False, skip_MP_regen=False
+        )
-- 
2.43.0


From 0af060c2ec8309ed41d5f84ffd39c944e16e84b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:56 +0000
Subject: [PATCH 23/25] fix: saver: a single electron density probe survives a
 restart

---
 pyecloud_saver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index a1ee369..2c6b491 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -702,8 +702,9 @@ class pyecloud_saver:
 
         for var in not_time_dependent_list:
             if var in list(dict_history.keys()):
-                if var in should_be_list_list:
-                    dict_restored[var] = dict_history[var].tolist()
+                if var in should_be_list_list and self.flag_el_dens_probes:
+                    # A single probe is squeezed when loading the file
+                    dict_restored[var] = np.atleast_1d(dict_history[var])
                 else:
                     dict_restored[var] = dict_history[var]
 
-- 
2.43.0


From 4175f1e829c975e4096e2050a38087cf45d321cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:53 +0000
Subject: [PATCH 24/25] fix: saver: the output is written whenever a checkpoint
 is saved

---
 pyecloud_saver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 2c6b491..75169d2 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -307,7 +307,8 @@ class pyecloud_saver:
             self.b_spac = beamtim.b_spac
             self.area = impact_man.chamb.area
 
-            if (beamtim.pass_numb + 1) % self.save_mat_every == 0:
+            # A restart from a checkpoint needs the output recorded up to the checkpoint
+            if (beamtim.pass_numb + 1) % self.save_mat_every == 0 or self._checkpoint_is_due(beamtim):
                 sio.savemat(self.filen_main_outp, self.build_outp_dict(buildup_sim), oned_as='row')
 
             # Check for checkpoint save state
@@ -524,11 +525,14 @@ class pyecloud_saver:
             if not os.path.isdir(self.checkpoint_folder):
                 os.makedirs(self.checkpoint_folder)
 
+    def _checkpoint_is_due(self, beamtim):
+        return self.flag_save_checkpoint and beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT
+
     def _checkpoint_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
                          sec_beams_list, flag_multiple_clouds, cloud_list):
         # First check if it is time to save a checkpoint
         if (self.flag_save_checkpoint):
-            if (beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT):
+            if self._checkpoint_is_due(beamtim):
 
                 outpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp)
 
-- 
2.43.0


From 572feebf674f862cd711e8bb3b838aa03f7d7f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:53 +0000
Subject: [PATCH 25/25] fix: saver: no copy of the output before it is first
 written

---
 pyecloud_saver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 75169d2..7a76d97 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -574,7 +574,8 @@ class pyecloud_saver:
 
     def _copy_main_outp_save(self, beamtim):
         if self.flag_copy_main_output:
-            if (beamtim.tt_curr - self.t_last_copy >= self.copy_main_outp_DT):
+            # with save_mat_every > 1 the output is not there at the first passages
+            if (beamtim.tt_curr - self.t_last_copy >= self.copy_main_outp_DT) and os.path.isfile(self.filen_main_outp):
                 self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
     def load_from_output(self, last_t=None):
-- 
2.43.0

