From f322aa990739c7d6839f6cb5306e46b05c2249f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:49 +0000
Subject: [PATCH 01/23] fix: Particles no longer modifies the caller's
 hydrodynamic arrays

depth, stage, qx, qy, u and v were stored by reference and then edited in
place (NaN and dry-cell handling, minimum velocity), so constructing
Particles changed the arrays in modelParams, corrupted depth when stage
and depth were the same array, and a second construction from the same
modelParams could route differently.
---
 dorado/particle_track.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 00ec552..1893fef 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -158,7 +158,7 @@ class Particles():
         # Define the water depth array
         if getattr(params, 'depth', None) is not None:
             try:
-                self.depth = params.depth
+                self.depth = params.depth.copy()
                 self.depth[np.isnan(self.depth)] = 0
             except Exception:
                 raise ValueError("Water depth array incorrectly defined.")
@@ -179,7 +179,7 @@ class Particles():
         # Define the water stage array
         if getattr(params, 'stage', None) is not None:
             try:
-                self.stage = params.stage
+                self.stage = params.stage.copy()
                 self.stage[self.depth == 0] = np.nan
             except Exception:
                 raise ValueError("Water stage array incorrectly defined.")
@@ -205,22 +205,22 @@ class Particles():
         # Define discharge and velocities for all cells in domain
         if params.model == 'DeltaRCM':
             if params.qx is not None and params.qy is not None:
-                self.qx = params.qx
+                self.qx = params.qx.copy()
                 self.qx[np.isnan(self.qx)] = 0
                 self.u = self.qx*self.depth/(self.depth**2 + 1e-8)
                 self.u[np.isnan(self.u)] = 0
 
-                self.qy = params.qy
+                self.qy = params.qy.copy()
                 self.qy[np.isnan(self.qy)] = 0
                 self.v = self.qy*self.depth/(self.depth**2 + 1e-8)
                 self.v[np.isnan(self.v)] = 0
 
             elif params.u is not None and params.v is not None:
-                self.u = params.u
+                self.u = params.u.copy()
                 self.u[np.isnan(self.u)] = 0
                 self.qx = self.u*self.depth
 
-                self.v = params.v
+                self.v = params.v.copy()
                 self.v[np.isnan(self.v)] = 0
                 self.qy = self.v*self.depth
 
@@ -234,7 +234,7 @@ class Particles():
                 self.u = self.qx*self.depth/(self.depth**2 + 1e-8)
                 self.u[np.isnan(self.u)] = 0
 
-                self.qy = params.qx
+                self.qy = params.qx.copy()
                 self.qy[np.isnan(self.qy)] = 0
                 self.v = self.qy*self.depth/(self.depth**2 + 1e-8)
                 self.v[np.isnan(self.v)] = 0
@@ -244,7 +244,7 @@ class Particles():
                 self.u[np.isnan(self.u)] = 0
                 self.qx = self.u*self.depth
 
-                self.v = params.u
+                self.v = params.u.copy()
                 self.v[np.isnan(self.v)] = 0
                 self.qy = self.v*self.depth
 
-- 
2.43.0


From ecdad67da74c8d26d169ef5678ea671392dd62a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:08 +0000
Subject: [PATCH 02/23] fix: do not append roi_flag to the caller's
 particle_variables list

---
 dorado/particle_track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 1893fef..dde1f5e 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -429,7 +429,7 @@ class Particles():
 
         # Read optional variables from params
         if getattr(params, 'particle_variables', None) is not None:
-            self.particle_variables = params.particle_variables
+            self.particle_variables = list(params.particle_variables)
         else:
             self.particle_variables = []
 
-- 
2.43.0


From a3ebfe075a1c342d86da6df8647630f347763f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:11 +0000
Subject: [PATCH 03/23] fix: steepest descent stays in place when no neighbor
 is routable

The maximum was taken before the current cell was removed, so a cell that
is its own deepest dead end lost every weight and the particle was always
sent to the north-west cell, whether or not it was land.
---
 dorado/lagrangian_walker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 5dd6cce..6177a5a 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -450,9 +450,12 @@ def steep_descent(probs):
             1-8 value chosen by greatest probs
 
     """
-    max_val = np.nanmax(probs)
     # remove initial location (index 4) from consideration
     probs[4] = 0
+    max_val = np.nanmax(probs)
+    # if nothing else can be chosen then remain at the initial location
+    if not max_val > 0:
+        return 4
     # remove any locations from consideration beneath max value
     probs[probs < max_val] = 0
     # any nans become ignored too
-- 
2.43.0


From 2bb88f526e036ab84b80588758cea52e0176786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:14 +0000
Subject: [PATCH 04/23] fix: a zero-weight cell is never picked

A draw of exactly 0 selected the first cell even when its weight was 0,
and a cell with no weights at all (e.g. at the border of the domain) sent
the particle to the north-west, which can be a negative index.
---
 dorado/lagrangian_walker.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 6177a5a..0c4dfaa 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -34,7 +34,8 @@ def random_pick_seed(choices, probs=None):
         probs = np.array([1 for i in list(range(len(choices)))])
     # find the corresp. index value from input 'choices' list of indices
     cutoffs = np.cumsum(probs)
-    idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
+    idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]),
+                               side='right')
 
     return choices[idx]
 
@@ -426,8 +427,12 @@ def random_pick(probs):
     """
     probs[np.isnan(probs)] = 0  # any nans are assigned as 0
     cutoffs = np.cumsum(probs)  # cumulative sum of all probabilities
+    # if no cell has any weight then remain at the initial location
+    if not cutoffs[-1] > 0:
+        return 4
     # randomly pick indices from cutoffs based on uniform distribution
-    idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
+    idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]),
+                               side='right')
 
     return idx
 
@@ -465,7 +470,8 @@ def steep_descent(probs):
     # is just 1, or it will randomly choose between values in the event
     # of a tie
     cutoffs = np.cumsum(probs)  # cumulative sum of all probabilities
-    idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
+    idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]),
+                               side='right')
 
     return idx
 
-- 
2.43.0


From 8f698f445d7c95dcbb5e84cfe526a56c88e44678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:38 +0000
Subject: [PATCH 05/23] fix: particles in the first row or column are held at
 the boundary

The neighbourhood slice started at index -1 there and came out empty, so
the edge was not seen and particles could walk off the grid.
---
 dorado/lagrangian_walker.py | 4 ++--
 dorado/particle_track.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 0c4dfaa..54035e1 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -399,8 +399,8 @@ def check_for_boundary(new_inds, current_inds, cell_type):
     # If so, then stop moving particle
     for i in range(0, len(new_inds)):
         # If particle borders an edge, cancel out any additional steps
-        if -1 in cell_type[current_inds[i][0]-1:current_inds[i][0]+2,
-                           current_inds[i][1]-1:current_inds[i][1]+2]:
+        if -1 in cell_type[max(current_inds[i][0]-1, 0):current_inds[i][0]+2,
+                           max(current_inds[i][1]-1, 0):current_inds[i][1]+2]:
             new_inds[i][0] = current_inds[i][0]
             new_inds[i][1] = current_inds[i][1]
 
diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index dde1f5e..ce529b6 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -735,9 +735,9 @@ class Particles():
                 _iter_particles = []
 
                 # Only iterate if this particle isn't already at a boundary:
-                if -1 not in self.cell_type[all_xinds[ii][-1]-1:
+                if -1 not in self.cell_type[max(all_xinds[ii][-1]-1, 0):
                                             all_xinds[ii][-1]+2,
-                                            all_yinds[ii][-1]-1:
+                                            max(all_yinds[ii][-1]-1, 0):
                                             all_yinds[ii][-1]+2]:
                     # Loop until |target time - current time| <
                     #            |target time - estimated next time|
-- 
2.43.0


From 32ed9afeed6f91963ddae0a6b6b4a232ca3c341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:42 +0000
Subject: [PATCH 06/23] fix: report every particle that exceeds max_iter

The list was reset for each particle, so only the last one could be
reported, and it was undefined when there were no particles.
---
 dorado/particle_track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index ce529b6..ff31090 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -722,6 +722,9 @@ class Particles():
         else:
             # If we ARE aiming for a specific time
             # iterate each particle until we get there
+            # init list for too many particle iterations
+            _iter_particles = []
+
             # Loop through all particles
             for ii in list(range(self.Np_tracer)):
                 if len(all_times[ii]) > 1:
@@ -731,9 +734,6 @@ class Particles():
                     est_next_dt = 0.1
                 count = 1
 
-                # init list for too many particle iterations
-                _iter_particles = []
-
                 # Only iterate if this particle isn't already at a boundary:
                 if -1 not in self.cell_type[max(all_xinds[ii][-1]-1, 0):
                                             all_xinds[ii][-1]+2,
-- 
2.43.0


From f9af240af4e02e3019de268621f9cbed714a306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 07/23] fix: use the same next-step estimate when resuming
 towards a target time

The estimate made on entry was not limited to 0.1 s like the ones made
during the loop, so a particle that had already stopped at the target
could be moved on by repeating the call after an instantaneous step.
---
 dorado/particle_track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index ff31090..e841ec7 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -728,7 +728,8 @@ class Particles():
             # Loop through all particles
             for ii in list(range(self.Np_tracer)):
                 if len(all_times[ii]) > 1:
-                    est_next_dt = all_times[ii][-1] - all_times[ii][-2]
+                    est_next_dt = max(0.1, all_times[ii][-1] -
+                                      all_times[ii][-2])
                 else:
                     # Initialize a guess for the next iteration's timestep
                     est_next_dt = 0.1
-- 
2.43.0


From db7584d735001cfd6b116a57141802a0b9015501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:05 +0000
Subject: [PATCH 08/23] fix: keep tracked variables aligned with walk data that
 lacks them

When earlier walk data had no record of a tracked variable its list came
out shorter than the locations (or was lost again after each iteration),
so values were attributed to the wrong particle or raised IndexError.
---
 dorado/particle_track.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index e841ec7..e1a5e58 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -588,7 +588,10 @@ class Particles():
             for var, new_var_list in optional_start_vars.items():
                 if var in self.walk_data:
                     internal_var = self.walk_data[var]
-                    optional_start_vars[var] = internal_var + new_var_list
+                else:
+                    # was not tracked before, so there is no value to report
+                    internal_var = [[None]*len(x) for x in internal_xinds]
+                optional_start_vars[var] = internal_var + new_var_list
 
         if previous_walk_data is not None:
             # If the generator has been run before, or if new
@@ -608,7 +611,10 @@ class Particles():
             for var, new_var_list in optional_start_vars.items():
                 if var in previous_walk_data:
                     prev_var = previous_walk_data[var]
-                    optional_start_vars[var] = prev_var + new_var_list
+                else:
+                    # was not tracked before, so there is no value to report
+                    prev_var = [[None]*len(x) for x in prev_xinds]
+                optional_start_vars[var] = prev_var + new_var_list
 
         # determine the new total number of particles we have now
         self.Np_tracer = len(start_xindices)
@@ -686,7 +692,9 @@ class Particles():
                 if var in self.walk_data:
                     optional_vars[var] = self.walk_data[var]
                 else:
-                    optional_vars[var] = [[None] for _ in range(self.Np_tracer)]
+                    # not recorded so far, so there is no value to report
+                    optional_vars[var] = [[None]*len(all_xinds[i]) for i in
+                                          range(self.Np_tracer)]
         
         start_optional = {var: [optional_vars[var][i][-1] for i in range(self.Np_tracer)]
                         for var in optional_vars}
@@ -784,8 +792,8 @@ class Particles():
                               " time-step. Particles are: " +
                               str(_iter_particles))
 
-            # re-write the walk_data attribute of self
-            self.walk_data = all_walk_data
+        # re-write the walk_data attribute of self
+        self.walk_data = all_walk_data
 
         return all_walk_data
 
-- 
2.43.0


From 932e8e0c1558d9f8435754193f87ca1a7bfa6c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:08 +0000
Subject: [PATCH 09/23] fix: routing no longer modifies the previous_walk_data
 passed in

The particle histories were shared with the caller's dictionary, so a
second simulation resumed from the same dictionary started from where
the first one had ended.
---
 dorado/particle_track.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index e1a5e58..cea16e0 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -598,9 +598,10 @@ class Particles():
             # particles are going to be added to a set of pre-existing
             # particles, then the walk_data dictionary from either can
             # be fed into this function as input
-            prev_xinds = previous_walk_data['xinds']
-            prev_yinds = previous_walk_data['yinds']
-            prev_times = previous_walk_data['travel_times']
+            # (copied, so that routing does not modify the user's input)
+            prev_xinds = [list(x) for x in previous_walk_data['xinds']]
+            prev_yinds = [list(y) for y in previous_walk_data['yinds']]
+            prev_times = [list(t) for t in previous_walk_data['travel_times']]
 
             # combine previous and new lists of particle information
             start_xindices = prev_xinds + start_xindices
@@ -610,7 +611,7 @@ class Particles():
             # merge optional variables with previous_walk_data
             for var, new_var_list in optional_start_vars.items():
                 if var in previous_walk_data:
-                    prev_var = previous_walk_data[var]
+                    prev_var = [list(v) for v in previous_walk_data[var]]
                 else:
                     # was not tracked before, so there is no value to report
                     prev_var = [[None]*len(x) for x in prev_xinds]
-- 
2.43.0


From e9e7621619026a6bf2eaa1f6939afac26bb682f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:11 +0000
Subject: [PATCH 10/23] fix: a dead end no longer routes particles onto land
 cells

The fallback to the deepest neighbor ignored cell_type, so a deep cell
declared as land could be selected.
---
 dorado/lagrangian_walker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 54035e1..736089f 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -210,7 +210,11 @@ def make_weight(Particles):
 
     # if it's a dead end with only nans and 0's, choose deepest cell
     zero_weights = tile_domain_array((np.nansum(weight, axis=2) <= 0))
-    deepest_cells = (depth_ind == tile_domain_array(np.max(depth_ind,axis=2)))
+    # (land cells are only an option for a particle already on land)
+    invalid_land = (ct_ind == 2) & tile_domain_array(Particles.cell_type != 2)
+    valid_depth = np.where(invalid_land, -np.inf, depth_ind)
+    deepest_cells = (valid_depth ==
+                     tile_domain_array(np.max(valid_depth, axis=2)))
     choose_deep_cells = (zero_weights & deepest_cells)
     weight[choose_deep_cells] = 1.0
 
-- 
2.43.0


From f1126ac4d0a5b89b4d254e8231e3d21f647d44c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:15 +0000
Subject: [PATCH 11/23] fix: flux_proportional_seeding handles a column of
 discharge values

With the documented one-column array the remaining particles were not
given to the timesteps with the largest remainders.
---
 dorado/particle_track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index cea16e0..5524869 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -1395,8 +1395,8 @@ def flux_proportional_seeding(Q,
     N_remaining = N_total - N_int.sum()
 
     if N_remaining > 0:
-        add_idx = np.argsort(remainders)[-N_remaining:]
-        N_int[add_idx] += 1
+        add_idx = np.argsort(remainders, axis=None)[-N_remaining:]
+        N_int.flat[add_idx] += 1
 
     # Final check
     assert N_int.sum() == N_total, "Particle rounding failed!"
-- 
2.43.0


From 5f821d22c75f78a64d6eabb01074e4435a6e5de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:49 +0000
Subject: [PATCH 12/23] fix: setup_logging installs a custom handler given
 after the first call

As in the docstring's own example, a handler passed once logging had been
set up was silently ignored.
---
 dorado/logging_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dorado/logging_config.py b/dorado/logging_config.py
index 37df7c6..eb93511 100644
--- a/dorado/logging_config.py
+++ b/dorado/logging_config.py
@@ -46,7 +46,7 @@ def setup_logging(level="WARNING", handler=None):
             f"Invalid logging level: {level}. Must be one of DEBUG, INFO, WARNING, ERROR, CRITICAL"
         )
     logger.setLevel(numeric_level)
-    if not logger.handlers:
+    if handler is not None or not logger.handlers:
         h = handler or logging.StreamHandler()
         h.setFormatter(
             logging.Formatter("%(name)s - %(levelname)s - %(message)s")
-- 
2.43.0


From 6a5fb529c0b1b5fc50083ecb6ac6b5123ff3a07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:52 +0000
Subject: [PATCH 13/23] fix: plotting routines work with and without tracked
 variables

get_state returns a fourth value only if optional variables are tracked;
plot_exposure_time failed without any, the other routines failed with.
---
 dorado/routines.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index 1de0eaa..ae2b71e 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -84,10 +84,10 @@ def steady_plots(particle, num_iter,
         walk_data = particle.run_iteration()
         if save_output:
             # Get current location
-            xi, yi, ti = get_state(walk_data)
+            xi, yi, ti = get_state(walk_data)[:3]
             if i == 0:
                 # Initialize figure
-                x0, y0, t0 = get_state(walk_data, 0)
+                x0, y0, t0 = get_state(walk_data, 0)[:3]
                 fig = plt.figure(dpi=200)
                 ax = fig.add_subplot(111)
                 im = ax.imshow(particle.depth)
@@ -259,9 +259,9 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
 
         walk_data = particle.run_iteration(target_time=target_times[i])
 
-        xi, yi, ti = get_state(walk_data)
+        xi, yi, ti = get_state(walk_data)[:3]
         if i == 0:
-            x0, y0, t0 = get_state(walk_data, 0)
+            x0, y0, t0 = get_state(walk_data, 0)[:3]
             # Initialize figure
             fig = plt.figure(dpi=200)
             ax = fig.add_subplot(111)
@@ -346,10 +346,10 @@ def time_plots(particle, num_iter, folder_name=None, verbose=None):
         walk_data = particle.run_iteration()
 
         # collect latest travel times
-        xi, yi, temptimes = get_state(walk_data)
+        xi, yi, temptimes = get_state(walk_data)[:3]
 
         if i == 0:
-            x0, y0, t0 = get_state(walk_data, 0)
+            x0, y0, t0 = get_state(walk_data, 0)[:3]
             # Initialize figure
             fig = plt.figure(dpi=200)
             ax = plt.gca()
@@ -614,7 +614,7 @@ def plot_exposure_time(walk_data,
     # Initialize arrays to record exposure time of each particle
     Np_tracer = len(walk_data['xinds'])  # Number of particles
     # Record final travel times
-    x, y, end_time, optional_state = get_state(walk_data)
+    x, y, end_time = get_state(walk_data)[:3]
 
     # Handle the timedelta
     if timedelta == 1:
@@ -818,7 +818,7 @@ def plot_exposure_time_thresholds(walk_data,
     """
 
     Np_tracer = len(walk_data['xinds'])
-    x, y, end_time = get_state(walk_data)
+    x, y, end_time = get_state(walk_data)[:3]
 
     if timedelta == 1:
         timeunit = '[s]'
@@ -1087,9 +1087,9 @@ def plot_state(grid, walk_data, iteration=-1, target_time=None, c='b'):
 
     """
     if target_time is None:
-        x, y, t = get_state(walk_data, int(iteration))
+        x, y, t = get_state(walk_data, int(iteration))[:3]
     else:
-        x, y, t = get_time_state(walk_data, target_time)
+        x, y, t = get_time_state(walk_data, target_time)[:3]
     ax = plt.gca()
     ax.imshow(grid)
     plt.scatter(y, x, c=c)
-- 
2.43.0


From 3abf71a4b729c3cdc0bf159aecc602642d4e92db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:56 +0000
Subject: [PATCH 14/23] fix: plot_exposure_time_thresholds copes with a
 threshold not being reached

If fewer than 50/75/90% of the particles exited in time the marker lookup
raised IndexError; report it as not reached, like plot_exposure_time.
---
 dorado/routines.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index ae2b71e..450151f 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -876,14 +876,13 @@ def plot_exposure_time_thresholds(walk_data,
     E75_idx = np.searchsorted(smooth_CDF, 0.75)
     E90_idx = np.searchsorted(smooth_CDF, 0.90)
 
-    E50_time = int(smooth_time_vect[E50_idx] / timedelta)
-    E75_time = int(smooth_time_vect[E75_idx] / timedelta)
-    E90_time = int(smooth_time_vect[E90_idx] / timedelta)
-
     handle_verbose_deprecation(verbose)
-    logger.info(f'E50: {E50_time} {timeunit}')
-    logger.info(f'E75: {E75_time} {timeunit}')
-    logger.info(f'E90: {E90_time} {timeunit}')
+    for label, idx in [('E50', E50_idx), ('E75', E75_idx), ('E90', E90_idx)]:
+        if idx < len(smooth_time_vect):
+            etime = int(smooth_time_vect[idx] / timedelta)
+            logger.info(f'{label}: {etime} {timeunit}')
+        else:
+            logger.info(f'{label}: not reached (max F={smooth_CDF[-1]:.3f})')
 
     for yval in [0.5, 0.75, 0.90]:
         ax1.axhline(y=yval, color='gray', linestyle='--', linewidth=0.75)
-- 
2.43.0


From 4457b485bc8396878dc7864547388677d9c006fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:28 +0000
Subject: [PATCH 15/23] fix: tracked variables can be saved as json for any
 array dtype

Values sampled from e.g. float32 grids were recorded as numpy scalars,
which json.dump in the plotting routines cannot serialize.
---
 dorado/lagrangian_walker.py | 2 +-
 dorado/particle_track.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 736089f..e55b2ba 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -555,6 +555,6 @@ def particle_stepper(Particles, current_inds, travel_times, start_optional):
         if var not in updated_optional:
             if var in Particles.available_particle_vars:
                 grid = Particles.available_particle_vars[var]
-                updated_optional[var] = [grid[x, y] for x, y in new_inds]
+                updated_optional[var] = [grid[x, y].item() for x, y in new_inds]
 
     return new_inds, travel_times, updated_optional
diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 5524869..328d0e9 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -566,7 +566,7 @@ class Particles():
                                                 for x, y in zip(new_start_xindices, new_start_yindices)]
                 elif var in self.available_particle_vars:
                     grid_values = self.available_particle_vars[var]
-                    optional_start_vars[var] = [[grid_values[x, y]] for x, y in zip(new_start_xindices, new_start_yindices)]
+                    optional_start_vars[var] = [[grid_values[x, y].item()] for x, y in zip(new_start_xindices, new_start_yindices)]
                 else:
                     raise ValueError(f"Variable {var} is not a recognized variable to track. Available variables are: {list(self.available_particle_vars.keys())} and 'roi_flag' (if roi_grid is provided).")
 
-- 
2.43.0


From c9f6850bbb3fc0ae6ad93444032a369cd202f96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:32 +0000
Subject: [PATCH 16/23] fix: unstruct2grid only crops the border of the grid

Interior rows and columns that were all NaN (e.g. at a constriction of the
boundary polygon) were removed as well, which shifted the cells beyond.
---
 dorado/particle_track.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 328d0e9..e142dc6 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -1204,6 +1204,16 @@ def nourishment_time(walk_data, raster_size, sigma=0.7, clip=99.5):
     return mean_time
 
 
+def _crop_nan_border(gridded_data):
+    """Delete the all-NaN border of a 2D array (see unstruct2grid)."""
+    mask = ~np.isnan(gridded_data)
+    rows = np.flatnonzero(mask.any(1))
+    cols = np.flatnonzero(mask.any(0))
+    if len(rows) == 0:
+        return gridded_data[:0, :0]
+    return gridded_data[rows[0]:rows[-1]+1, cols[0]:cols[-1]+1]
+
+
 def unstruct2grid(coordinates,
                   quantity,
                   cellsize,
@@ -1309,9 +1319,7 @@ def unstruct2grid(coordinates,
             gridded_data.shape = (len(yvect), len(xvect))
             gridded_data = np.flipud(gridded_data)
             if boundary is not None and crop is True:
-                mask = ~np.isnan(gridded_data) # Delete all-nan border
-                gridded_data = gridded_data[np.ix_(mask.any(1),
-                                                   mask.any(0))]
+                gridded_data = _crop_nan_border(gridded_data)
             return gridded_data
     else:
         # Inverse-distance interpolation
@@ -1335,9 +1343,7 @@ def unstruct2grid(coordinates,
             gridded_data.shape = (len(yvect), len(xvect))
             gridded_data = np.flipud(gridded_data)
             if boundary is not None and crop is True:
-                mask = ~np.isnan(gridded_data) # Delete all-nan border
-                gridded_data = gridded_data[np.ix_(mask.any(1),
-                                                   mask.any(0))]
+                gridded_data = _crop_nan_border(gridded_data)
             return gridded_data
 
     # Finally, call the interpolation function to create array:
-- 
2.43.0


From 929ee80a513a473c8e5303807c634f7dc3b8c3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:35 +0000
Subject: [PATCH 17/23] fix: parallel processes no longer repeat the same
 random walk

Forked workers inherit one random state, so every core could route the
same trajectories and the number of independent particles depended on
how tasks were scheduled. Seed each task from the caller's random state.
---
 dorado/parallel_routing.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dorado/parallel_routing.py b/dorado/parallel_routing.py
index 38aee2a..69b9f98 100644
--- a/dorado/parallel_routing.py
+++ b/dorado/parallel_routing.py
@@ -8,6 +8,7 @@ Project Homepage: https://github.com/passaH2O/dorado
 from __future__ import division, print_function, absolute_import
 from builtins import range, map
 import numpy as np
+import copy
 import sys
 import os
 import re
@@ -37,6 +38,11 @@ def run_iter(pobj):
             any optional variables, with details same as input previous_walk_data
 
     """
+    # give each parallel task its own stream of random numbers, as forked
+    # processes otherwise all start from the same state
+    if getattr(pobj, 'random_seed', None) is not None:
+        np.random.seed(pobj.random_seed)
+
     pobj.particles.generate_particles(pobj.Np_tracer, pobj.seed_xloc,
                                       pobj.seed_yloc)
     # do iterations
@@ -138,7 +144,11 @@ def parallel_routing(particles, num_iter, Np_tracer, seed_xloc, seed_yloc,
     pobj.seed_yloc = seed_yloc
 
     # define list to pass to actual function that will be mapped to in parallel
-    p_list = [pobj] * num_cores
+    p_list = [copy.copy(pobj) for i in range(num_cores)]
+    # each with its own seed (taken from the current random state)
+    random_seeds = np.random.randint(0, 2**31 - 1, size=(num_cores, 4))
+    for task, random_seed in zip(p_list, random_seeds):
+        task.random_seed = random_seed
 
     # create the parallel pool and run the process
     p = Pool(processes=num_cores)
-- 
2.43.0


From 580f4fc98b8df4cf8b1944c3f4b01a4a4d70b0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:42 +0000
Subject: [PATCH 18/23] fix: setup_logging installs a supplied handler that is
 falsy (e.g. an empty container)

---
 dorado/logging_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dorado/logging_config.py b/dorado/logging_config.py
index eb93511..dbcabc3 100644
--- a/dorado/logging_config.py
+++ b/dorado/logging_config.py
@@ -47,7 +47,7 @@ def setup_logging(level="WARNING", handler=None):
         )
     logger.setLevel(numeric_level)
     if handler is not None or not logger.handlers:
-        h = handler or logging.StreamHandler()
+        h = handler if handler is not None else logging.StreamHandler()
         h.setFormatter(
             logging.Formatter("%(name)s - %(levelname)s - %(message)s")
         )
-- 
2.43.0


From 4179c49b6ba6861625afaa4710a0a581b1785cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:04 +0000
Subject: [PATCH 19/23] fix: plot_spatial returns the axes of its panels

---
 dorado/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dorado/spatial.py b/dorado/spatial.py
index cd5d69b..68e9a6b 100644
--- a/dorado/spatial.py
+++ b/dorado/spatial.py
@@ -335,6 +335,7 @@ def plot_spatial(exposure_maps,
         full_rows, full_cols = elevation.shape
         extent = [0, full_cols, full_rows, 0]  
         ax = fig.add_subplot(gs[0, i + 1])
+        axes.append(ax)
         ax.imshow(elevation, cmap='bone', aspect='auto', alpha=0.75,
                   extent=extent, origin='upper')
         ax.imshow(data, cmap=cmap, norm=norm, aspect='auto',
-- 
2.43.0


From a8266f8d984591394082bc700a28f2061d5a94a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 20/23] fix: integer input arrays (or single precision) are
 treated like floats

---
 dorado/particle_track.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index e142dc6..ad30d65 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -158,7 +158,7 @@ class Particles():
         # Define the water depth array
         if getattr(params, 'depth', None) is not None:
             try:
-                self.depth = params.depth.copy()
+                self.depth = params.depth.astype(float)
                 self.depth[np.isnan(self.depth)] = 0
             except Exception:
                 raise ValueError("Water depth array incorrectly defined.")
@@ -168,7 +168,7 @@ class Particles():
                                                    'topography',
                                                    None) is not None:
             try:
-                self.depth = params.stage - params.topography
+                self.depth = params.stage.astype(float) - params.topography
                 self.depth[self.depth < 0] = 0
                 self.depth[np.isnan(self.depth)] = 0
             except Exception:
@@ -179,7 +179,7 @@ class Particles():
         # Define the water stage array
         if getattr(params, 'stage', None) is not None:
             try:
-                self.stage = params.stage.copy()
+                self.stage = params.stage.astype(float)
                 self.stage[self.depth == 0] = np.nan
             except Exception:
                 raise ValueError("Water stage array incorrectly defined.")
@@ -189,7 +189,7 @@ class Particles():
                                                    'depth',
                                                    None) is not None:
             try:
-                self.stage = params.topography + params.depth
+                self.stage = params.topography.astype(float) + params.depth
                 self.stage[self.depth == 0] = np.nan
             except Exception:
                 raise ValueError("Insufficient information: Specify stage")
@@ -205,22 +205,22 @@ class Particles():
         # Define discharge and velocities for all cells in domain
         if params.model == 'DeltaRCM':
             if params.qx is not None and params.qy is not None:
-                self.qx = params.qx.copy()
+                self.qx = params.qx.astype(float)
                 self.qx[np.isnan(self.qx)] = 0
                 self.u = self.qx*self.depth/(self.depth**2 + 1e-8)
                 self.u[np.isnan(self.u)] = 0
 
-                self.qy = params.qy.copy()
+                self.qy = params.qy.astype(float)
                 self.qy[np.isnan(self.qy)] = 0
                 self.v = self.qy*self.depth/(self.depth**2 + 1e-8)
                 self.v[np.isnan(self.v)] = 0
 
             elif params.u is not None and params.v is not None:
-                self.u = params.u.copy()
+                self.u = params.u.astype(float)
                 self.u[np.isnan(self.u)] = 0
                 self.qx = self.u*self.depth
 
-                self.v = params.v.copy()
+                self.v = params.v.astype(float)
                 self.v[np.isnan(self.v)] = 0
                 self.qy = self.v*self.depth
 
@@ -229,22 +229,22 @@ class Particles():
                                  " Specify velocities/discharge")
         else:
             if params.qx is not None and params.qy is not None:
-                self.qx = -1*params.qy
+                self.qx = -1*params.qy.astype(float)
                 self.qx[np.isnan(self.qx)] = 0
                 self.u = self.qx*self.depth/(self.depth**2 + 1e-8)
                 self.u[np.isnan(self.u)] = 0
 
-                self.qy = params.qx.copy()
+                self.qy = params.qx.astype(float)
                 self.qy[np.isnan(self.qy)] = 0
                 self.v = self.qy*self.depth/(self.depth**2 + 1e-8)
                 self.v[np.isnan(self.v)] = 0
 
             elif params.u is not None and params.v is not None:
-                self.u = -1*params.v
+                self.u = -1*params.v.astype(float)
                 self.u[np.isnan(self.u)] = 0
                 self.qx = self.u*self.depth
 
-                self.v = params.u.copy()
+                self.v = params.u.astype(float)
                 self.v[np.isnan(self.v)] = 0
                 self.qy = self.v*self.depth
 
-- 
2.43.0


From d4490dfe85aff1a093232b4547a36a4af5583ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:49 +0000
Subject: [PATCH 21/23] fix: exposure_time measures whole steps inside a
 boolean region as well

---
 dorado/particle_track.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index ad30d65..01eea27 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -1015,6 +1015,8 @@ def exposure_time(walk_data,
     """
     # Initialize arrays to record exposure time of each particle
     Np_tracer = len(walk_data['xinds'])  # Number of particles
+    # Boolean regions are counted as 0's and 1's, like integer ones
+    region_of_interest = 1*region_of_interest
     # Array to be populated
     exposure_times = np.zeros([Np_tracer], dtype='float')
     # list of particles that don't exit roi
-- 
2.43.0


From e83a8ddf4e0d99c98f456d45b9fa6d9ed46ca4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:07 +0000
Subject: [PATCH 22/23] fix: flux_proportional_seeding computes in double
 precision for any type of Q

---
 dorado/particle_track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 01eea27..5bd5576 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -1395,7 +1395,8 @@ def flux_proportional_seeding(Q,
         raise ValueError("All discharge values are zero. Cannot distribute particles.")
     
     # Compute ideal particle counts
-    N_float = Q_abs / Q_abs.sum() * N_total
+    # (in double precision, whatever the type of Q)
+    N_float = Q_abs.astype(float) / Q_abs.sum(dtype=float) * N_total
     N_int = np.floor(N_float).astype(int)
 
     # Remainder distribution
-- 
2.43.0


From 05c682e9fbc386c03d6408be9585f1b8efd24665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:17 +0000
Subject: [PATCH 23/23] fix: unsteady_plots leaves the logging set-up alone

It set the deprecated verbose flag on its own parameters, so every run
without any verbose argument reset the level asked for by the user to
ERROR and raised a DeprecationWarning at each step.
---
 dorado/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index 450151f..4e459a8 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -184,7 +184,6 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
     # init params
     params = modelParams()
     params.dx = dx
-    params.verbose = False
     # make directory to save the data
     if folder_name is None:
         folder_name = os.getcwd()
@@ -250,6 +249,7 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
 
         # then define the particles class and continue
         particle = Particles(params)
+        particle.verbose = False
         # generate some particles
         if i == 0:
             particle.generate_particles(Np_tracer, seed_xloc, seed_yloc)
-- 
2.43.0

