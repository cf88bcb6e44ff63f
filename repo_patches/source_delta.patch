From 106c43761965b698a121910f7c2db92ceb1657ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:04 +0000
Subject: [PATCH 01/18] fix: flag both copies of a periodic boundary interface
 as troubled

---
 fvhoe/slope_limiting.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index a13f12d..4d21853 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -378,6 +378,19 @@ def broadcast_to_troubled_interfaces(
             troubled_z_interfaces[:, :, :-1] = np.maximum(
                 troubled_z_interfaces[:, :, :-1], trouble
             )
+    # the first and last interface of a periodic direction are the same interface
+    if periodic_x and "x" in dims:
+        troubled_x_interfaces[[0, -1], :, :] = np.maximum(
+            troubled_x_interfaces[:1, :, :], troubled_x_interfaces[-1:, :, :]
+        )
+    if periodic_y and "y" in dims:
+        troubled_y_interfaces[:, [0, -1], :] = np.maximum(
+            troubled_y_interfaces[:, :1, :], troubled_y_interfaces[:, -1:, :]
+        )
+    if periodic_z and "z" in dims:
+        troubled_z_interfaces[:, :, [0, -1]] = np.maximum(
+            troubled_z_interfaces[:, :, :1], troubled_z_interfaces[:, :, -1:]
+        )
     troubled_x_interfaces = troubled_x_interfaces[np.newaxis, ...]
     troubled_y_interfaces = troubled_y_interfaces[np.newaxis, ...]
     troubled_z_interfaces = troubled_z_interfaces[np.newaxis, ...]
-- 
2.43.0


From 800c28dbbda07490f0e650bffe20ffe7e3212c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:04 +0000
Subject: [PATCH 02/18] fix: wrap convex trouble around periodic boundaries in
 1D and 2D

---
 fvhoe/slope_limiting.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index 4d21853..108846e 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -295,14 +295,14 @@ def broadcast_to_troubled_interfaces(
         alloc_trouble[tuple(slices)] = trouble
         # apply periodic boundary conditions
         if periodic_x and xdim:
-            alloc_trouble[:2, 2:-2, 2:-2] = trouble[-2:, :, :]
-            alloc_trouble[-2:, 2:-2, 2:-2] = trouble[:2, :, :]
+            alloc_trouble[:2, :, :] = alloc_trouble[-4:-2, :, :]
+            alloc_trouble[-2:, :, :] = alloc_trouble[2:4, :, :]
         if periodic_y and ydim:
-            alloc_trouble[2:-2, :2, 2:-2] = trouble[:, -2:, :]
-            alloc_trouble[2:-2, -2:, 2:-2] = trouble[:, :2, :]
+            alloc_trouble[:, :2, :] = alloc_trouble[:, -4:-2, :]
+            alloc_trouble[:, -2:, :] = alloc_trouble[:, 2:4, :]
         if periodic_z and zdim:
-            alloc_trouble[2:-2, 2:-2, :2] = trouble[2:-2, 2:-2, -2:]
-            alloc_trouble[2:-2, 2:-2, -2:] = trouble[2:-2, 2:-2, :2]
+            alloc_trouble[:, :, :2] = alloc_trouble[:, :, -4:-2]
+            alloc_trouble[:, :, -2:] = alloc_trouble[:, :, 2:4]
     # broadcast troubled cells to interfaces
     if convex:
         # convex broadcast
-- 
2.43.0


From 5229f3d0356ae435cd8a540f76beb43edcaa20dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:04 +0000
Subject: [PATCH 03/18] fix: detect physically inadmissible values of every
 bounded variable

---
 fvhoe/slope_limiting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index 108846e..c8a653a 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -229,8 +229,8 @@ def detect_troubled_cells(
     PAD_indicator = np.zeros_like(NAD_violation_magnitude)
     if PAD_bounds is not None:
         for var, (lowr, uppr) in PAD_bounds.items():
-            PAD_indicator[...] = (
-                u_candidate_inner[_hs(var)] - lowr
+            PAD_indicator[...] = np.minimum(
+                PAD_indicator, u_candidate_inner[_hs(var)] - lowr
             )  # lower PAD difference
             PAD_indicator[...] = np.minimum(
                 PAD_indicator, uppr - u_candidate_inner[_hs(var)]
-- 
2.43.0


From b9af4db478a5bced6daae1df4550131d53c84197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:04 +0000
Subject: [PATCH 04/18] fix: treat vanishing curvature alike on both sides of
 the smooth extrema detector

---
 fvhoe/smooth_extrema_detection.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fvhoe/smooth_extrema_detection.py b/fvhoe/smooth_extrema_detection.py
index 04c3df8..f00b775 100644
--- a/fvhoe/smooth_extrema_detection.py
+++ b/fvhoe/smooth_extrema_detection.py
@@ -33,9 +33,7 @@ def compute_1d_smooth_extrema_detector(
     # left detector
     vL = dU[slices[0]] - dU[slices[1]]
     alphaL = -np.where(dv < 0, np.where(vL > 0, vL, 0), np.where(vL < 0, vL, 0)) / dv
-    alphaL[...] = (
-        -np.where(dv < 0, np.where(vL > 0, vL, 0), np.where(vL < 0, vL, 0)) / dv
-    )
+    alphaL[...] = np.where(np.abs(dv) <= eps, 1, alphaL)
     alphaL[...] = np.where(alphaL < 1, alphaL, 1)
 
     # right detector
-- 
2.43.0


From c7c3f8fbd8673c00ea077b5cca74a2b9aba9f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:04 +0000
Subject: [PATCH 05/18] fix: pass the hydro state to the free boundary of the
 double Mach reflection

---
 fvhoe/boundary_conditions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 2718ebf..8a2436e 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -379,7 +379,13 @@ class BoundaryCondition:
                     out_refl = out.copy()
 
                     # set free bc
-                    _set_free_bc(out_free, slab_thickness, axis=i + 1, pos=pos)
+                    _set_free_bc(
+                        hs=self.hydro_state,
+                        u=out_free,
+                        slab_thickness=slab_thickness,
+                        axis=i + 1,
+                        pos=pos,
+                    )
 
                     # set reflective bc
                     _set_symmetric_bc(
-- 
2.43.0


From 8037ef728a6c951bb10b4a7ca2f6551e25adf847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:04 +0000
Subject: [PATCH 06/18] fix: reject ghost zones wider than the interior they
 are copied from

---
 fvhoe/boundary_conditions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 8a2436e..7ba7963 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -330,6 +330,13 @@ class BoundaryCondition:
             if slab_thickness == 0:
                 continue
 
+            # copied slabs must fit in the interior
+            if bc in ("periodic", "outflow", "reflective"):
+                if slab_thickness > u.shape[i + 1]:
+                    raise ValueError(
+                        f"Cannot apply '{bc}' bc to region of thickness {slab_thickness} with {u.shape[i + 1]} interior cells along {dim}"
+                    )
+
             match bc:
                 case "dirichlet" | "ic":
                     # set dirichlet boundaries
-- 
2.43.0


From e1bcb3f426abe97d34721cd3e46b9544a88c6ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:04 +0000
Subject: [PATCH 07/18] fix: write snapshots of runs started from conservative
 cell averages

---
 fvhoe/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 1d70828..3847a3d 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -916,6 +916,7 @@ class EulerSolver(ODE):
             # skip functions, arrays, etc
             if (
                 (callable(v) and k != "am")
+                or v is NotImplemented
                 or isinstance(v, np.ndarray)
                 or isinstance(v, cp_ndarray)
                 or k
-- 
2.43.0


From 6106ef04e6964a5b9da1378f072ded494a09fa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:04 +0000
Subject: [PATCH 08/18] fix: average the trouble of the first step over its own
 stages

---
 fvhoe/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 3847a3d..27426c4 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -397,7 +397,7 @@ class EulerSolver(ODE):
         self.SED = SED
         self.SED_tolerance = SED_tolerance
         self.convex = convex
-        self.trouble_counter = 1
+        self.trouble_counter = 0
 
     def _init_array_allocation(self):
         """
-- 
2.43.0


From 21a6f5d71eb9b117a225aa88648e0a63dc3a73ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:04 +0000
Subject: [PATCH 09/18] fix: refuse passive scalars named like a built-in
 variable

---
 fvhoe/hydro.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fvhoe/hydro.py b/fvhoe/hydro.py
index b63f9f2..36e9f00 100644
--- a/fvhoe/hydro.py
+++ b/fvhoe/hydro.py
@@ -52,6 +52,11 @@ class HydroState:
         if len(self.passive_scalars) != len(set(self.passive_scalars)):
             raise ValueError("Duplicate passive scalar names.")
 
+        # check no passive scalar shadows a built-in name
+        reserved = set(self.variable_map) | {"passive_scalars"}
+        if reserved & set(self.passive_scalars):
+            raise ValueError("Passive scalar name is reserved.")
+
         # add passive scalars to variable map
         if self.passive_scalars:
             for i, scalar in enumerate(self.passive_scalars, start=5):
-- 
2.43.0


From 861c900279095c932aeffd9551bbd7bc5d40f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:04 +0000
Subject: [PATCH 10/18] fix: evaluate the second stage of ssprk2 at t + dt

---
 fvhoe/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 69c9f5b..a1475e5 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -261,7 +261,7 @@ class ODE(ABC):
             dt, k0 = self.f(t, u)
             dt = _hit_target(t=t, dt=dt, target=target_time)
             u1 = u + dt * k0
-            _, k1 = self.f(t, u1)
+            _, k1 = self.f(t + dt, u1)
             unext = 0.5 * u + 0.5 * (u1 + dt * k1)
             return dt, unext
 
-- 
2.43.0


From 78e672bdbadfd3e60bd59a1fd5ebf016ea0371a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:04 +0000
Subject: [PATCH 11/18] fix: only target downbeats that lie ahead of the
 current time

---
 fvhoe/ode.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index a1475e5..a801186 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -144,10 +144,9 @@ class ODE(ABC):
         elif isinstance(downbeats, np.ndarray):
             downbeats = downbeats.tolist()
 
-        downbeats = sorted(set([0] + downbeats + [T]))[
-            1:
-        ]  # get unique values and ignore 0
-        target_time = downbeats.pop(0) if exact else None
+        # get unique values and ignore those that are already reached
+        downbeats = sorted(t for t in set([*downbeats, T]) if t > self.t)
+        target_time = downbeats.pop(0) if exact and downbeats else None
 
         # initial snapshot
         self.snapshot()
-- 
2.43.0


From f841124798c3342df2193d6776992eae3d21d975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:41 +0000
Subject: [PATCH 12/18] fix: impose time-dependent boundaries at the time of
 each Runge-Kutta stage

---
 fvhoe/solver.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 27426c4..a4ae2c3 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -424,19 +424,22 @@ class EulerSolver(ODE):
         compute the RHS of the Euler equations
         """
         self.f_evaluation_count += 1
-        return self.hydrodynamics(u)
+        return self.hydrodynamics(u, t=t)
 
-    def hydrodynamics(self, u: np.ndarray) -> Tuple[float, np.ndarray]:
+    def hydrodynamics(
+        self, u: np.ndarray, t: float = None
+    ) -> Tuple[float, np.ndarray]:
         """
         compute the Euler equation dynamics from cell-average conserved values u
         args:
             u (array_like) : fv averages of conservative variables. has shape (nvars, nx, ny, nz)
+            t (float) : time value of u. if None, self.t
         returns:
             dt, dudt (float, array_like) : time-step size, conservative variable dynamics
         """
         # high-order fluxes
         dt, (self.am("F")[...], self.am("G")[...], self.am("H")[...]) = (
-            self.hydrofluxes(u=u, p=self.p, timer_prefix="(high-order) ")
+            self.hydrofluxes(u=u, p=self.p, timer_prefix="(high-order) ", t=t)
         )
 
         if self.a_posteriori_slope_limiting:
@@ -447,6 +450,7 @@ class EulerSolver(ODE):
                 H=self.am("H"),
                 dt=dt,
                 force_trouble=self.force_trouble,
+                t=t,
             )
 
         # compute conservative variable dynamics
@@ -459,6 +463,7 @@ class EulerSolver(ODE):
         p: Tuple[int, int, int],
         slope_limiter: str = None,
         timer_prefix: str = "",
+        t: float = None,
     ) -> Tuple[float, Tuple[np.ndarray, np.ndarray, np.ndarray]]:
         """
         compute the Euler equation fluxes F, G, H with degree p polynomials. optionally apply slope limiting.
@@ -468,6 +473,7 @@ class EulerSolver(ODE):
             p (Tuple[int, int, int]) : polynomial interpolation degree (px, py, pz)
             limiter (str) : None, 'minmod', 'moncen'
             timer_prefix (str) : prefix for timer categories
+            t (float) : time value of u. if None, self.t
         returns:
             dt, (F, G, H) (tuple) : time-step size and numerical fluxes
                 dt (float) : time-step size
@@ -501,6 +507,7 @@ class EulerSolver(ODE):
                 gw if self.ydim else 0,
                 gw if self.zdim else 0,
             ),
+            t=t,
         )
 
         # time-step size
@@ -658,6 +665,7 @@ class EulerSolver(ODE):
         H: np.ndarray,
         dt: float,
         force_trouble: bool = False,
+        t: float = None,
     ) -> None:
         """
         revise fluxes to prevent oscillations
@@ -668,6 +676,7 @@ class EulerSolver(ODE):
             H (array_like) : z-fluxes. has shape (nvars, nx, ny, nz + 1)
             dt (float) : time-step size
             force_trouble (bool) : all cells are troubled
+            t (float) : time value of u. if None, self.t
         returns:
             None : revise fluxes in place
         """
@@ -683,8 +692,10 @@ class EulerSolver(ODE):
             3 if self.ydim else 0,
             3 if self.zdim else 0,
         )
-        w = self.interpolate_primitives_from_conservatives(u, p=self.p, gw=gw)
-        w_star = self.interpolate_primitives_from_conservatives(ustar, p=self.p, gw=gw)
+        w = self.interpolate_primitives_from_conservatives(u, p=self.p, gw=gw, t=t)
+        w_star = self.interpolate_primitives_from_conservatives(
+            ustar, p=self.p, gw=gw, t=t
+        )
 
         # detect troubled cells
         self.timer.start("(fallback scheme) troubled cell detection")
@@ -714,6 +725,7 @@ class EulerSolver(ODE):
                 p=(int(self.p[0] > 0), int(self.p[1] > 0), int(self.p[2] > 0)),
                 slope_limiter=self.slope_limiter,
                 timer_prefix="(fallback scheme) ",
+                t=t,
             )
 
             # get mask for troubled interfaces
@@ -756,6 +768,7 @@ class EulerSolver(ODE):
         p: Tuple[int, int, int],
         gw: Tuple[int, int, int] = (0, 0, 0),
         fv_average: bool = True,
+        t: float = None,
     ) -> np.ndarray:
         """
         interpolate finite volume primitives from finite volume conservatives
@@ -765,6 +778,7 @@ class EulerSolver(ODE):
             gw (Tuple[int, int, int]) : how many ghost zones w should have on each side (gx, gy, gz).
                 all values should be at least 0
             fv_average (bool) : whether u is cell-averaged or centroids
+            t (float) : time value of u. if None, self.t
         returns:
             w (array_like) : primitive variables as finite volume averages or centroids
         """
@@ -781,7 +795,7 @@ class EulerSolver(ODE):
             interp_cost_z = get_stencil_size(p[2])
         gw = (gw[0] + interp_cost_x, gw[1] + interp_cost_y, gw[2] + interp_cost_z)
         self.timer.start("boundary conditions")
-        u_bc = self.bc.apply(u, gw=gw, t=self.t)
+        u_bc = self.bc.apply(u, gw=gw, t=self.t if t is None else t)
         self.timer.stop("boundary conditions")
         u_cell_centers = interpolate_cell_centers(u_bc, p=p)
         w_cell_centers = compute_primitives(hs, u_cell_centers, gamma=self.gamma)
-- 
2.43.0


From 3afe70600e97e5bc6a418c0b024d22fe1f8c539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:03 +0000
Subject: [PATCH 13/18] fix: log one trouble value per cell so that it can be
 plotted

---
 fvhoe/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index a4ae2c3..6470afb 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -410,9 +410,9 @@ class EulerSolver(ODE):
         self.am.add("w", np.empty((nvars, nx, ny, nz)))
 
         # limiting
-        self.am.add("mean trouble", np.zeros((5, nx, ny, nz)))
-        self.am.add("mean NAD mag", np.zeros((5, nx, ny, nz)))
-        self.am.add("mean PAD mag", np.zeros((5, nx, ny, nz)))
+        self.am.add("mean trouble", np.zeros((nx, ny, nz)))
+        self.am.add("mean NAD mag", np.zeros((nx, ny, nz)))
+        self.am.add("mean PAD mag", np.zeros((nx, ny, nz)))
 
         # fluxes
         self.am.add("F", np.empty((nvars, nx + 1, ny, nz)))
-- 
2.43.0


From 231e4230fdf05142dc0a42f47627fb7dd7606ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:08 +0000
Subject: [PATCH 14/18] fix: land exactly on the target time of a shortened
 step

---
 fvhoe/ode.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index a801186..6f65b0f 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -186,7 +186,11 @@ class ODE(ABC):
         dt, self.am("u")[...] = self.stepper(
             self.t, self.am("u"), target_time=target_time
         )
-        self.t += dt
+        # land exactly on the target if the step was shortened to reach it
+        if target_time is not None and dt == target_time - self.t:
+            self.t = target_time
+        else:
+            self.t += dt
         self.timestamps.append(self.t)
         self.step_count += 1
         self.step_helper_function()
-- 
2.43.0


From e3c61f6c53da8a7bca58697c2a05c29dd9b1f1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:40 +0000
Subject: [PATCH 15/18] fix: plot_fields shows the velocity components in its
 second row

---
 fvhoe/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 6470afb..696f078 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -1000,7 +1000,7 @@ class EulerSolver(ODE):
             varnames = ["rho", "P", "v", "vx", "vy", "vz"]
             varlabels = [r"$\rho$", r"$P$", r"$v$", r"$v_x$", r"$v_y$", r"$v_z$"]
             for i, j in product([0, 1], [0, 1, 2]):
-                im = self.plot_2d_slice(axs[i, j], param=varnames[i + j], **kwargs)
+                im = self.plot_2d_slice(axs[i, j], param=varnames[3 * i + j], **kwargs)
                 im_ax = fig.add_axes(
                     [
                         axs[i, j].get_position().x0 + axs[i, j].get_position().width,
@@ -1009,7 +1009,7 @@ class EulerSolver(ODE):
                         axs[i, j].get_position().height,
                     ]
                 )
-                fig.colorbar(im, cax=im_ax, label=varlabels[i + j])
+                fig.colorbar(im, cax=im_ax, label=varlabels[3 * i + j])
             return fig, axs
         raise NotImplementedError(
             "Plotting is only implemented for 1D and 2D simulations."
-- 
2.43.0


From a1651ac75bbfba1cfc28b32fdb11288faf691939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:40 +0000
Subject: [PATCH 16/18] fix: overlay_trouble=True overlays all trouble, as
 documented

---
 fvhoe/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index f99747b..0b5342d 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -120,7 +120,7 @@ def plotting_trouble(snapshot: dict, mode: str, tol: float) -> np.ndarray:
         np.where(trouble > 0, 1, 0) == np.logical_or(NAD_mag > 0, PAD_mag > 0)
     ):
         raise ValueError("trouble must be consistent with NAD and PAD")
-    if mode == "all":
+    if mode == "all" or mode is True:
         out = np.where(PAD_mag > 0, 1, np.where(NAD_mag > tol, 1, 0))
     elif mode == "NAD":
         out = np.where(NAD_mag > tol, 1, 0)
-- 
2.43.0


From 9b41e9579830a9ea319b1d9c724e0225e2a33524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:40 +0000
Subject: [PATCH 17/18] fix: plotting and sampling helpers accept a snapshot
 list, as documented

---
 fvhoe/visualization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index 0b5342d..679203c 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -161,7 +161,7 @@ def plot_1d_slice(
     returns:
         None : modifies the input Axes object
     """
-    hs = solver.hydro_state
+    hs = getattr(solver, "hydro_state", _hs)
     snapshots = get_snapshot_list(solver)
     n, slices = get_indices_from_coordinates(snapshots, t, x, y, z)
 
@@ -238,7 +238,7 @@ def plot_2d_slice(
     returns:
         None : modifies the input Axes object
     """
-    hs = solver.hydro_state
+    hs = getattr(solver, "hydro_state", _hs)
     snapshots = get_snapshot_list(solver)
     n, slices = get_indices_from_coordinates(snapshots, t, x, y, z)
 
@@ -332,7 +332,7 @@ def sample_circular_average(
         bin_average (array_like) : average of param in each bin
         r_average (array_like) : average radius in each bin
     """
-    hs = solver.hydro_state
+    hs = getattr(solver, "hydro_state", _hs)
     snapshots = get_snapshot_list(solver)
     n, _ = get_indices_from_coordinates(snapshots, t)
 
-- 
2.43.0


From d712284d08a40ed91ee23d0b28a768a3ec0d0ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:41 +0000
Subject: [PATCH 18/18] fix: radial averages over integer bin edges are not
 truncated to integers

---
 fvhoe/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index 679203c..f12ba97 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -349,8 +349,8 @@ def sample_circular_average(
         param_data = get_velocity_magnitude(snapshots[n]["w"])
     else:
         param_data = snapshots[n]["w"][hs(param)]
-    r_average = np.empty_like(radii[:-1])
-    bin_average = np.empty_like(radii[:-1])
+    r_average = np.empty(len(radii) - 1)
+    bin_average = np.empty(len(radii) - 1)
 
     # sample
     for i, (little_r, big_r) in enumerate(zip(radii[:-1], radii[1:])):
-- 
2.43.0

