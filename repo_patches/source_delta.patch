From 6d88e950a0ffc80bdb8f278cc6a0e9de8bfffa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 01/20] fix: move (N,4,3) vertex groups by one shared scalar
 time

---
 xrd_simulator/motion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index 4e7c639..ab1b090 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -126,6 +126,7 @@ class RigidBodyMotion:
         elif len(vectors.shape) == 3:
             # Handle (N, M, 3) input shapes - typically (N_peaks, 4_vertices, 3_coords)
             N, M, _ = vectors.shape
+            time = time.expand(N)  # a scalar time is shared by all groups
             translation = self.translation.reshape(1, 3)
             origin = self.origin.reshape(1, 3)
             centered_vectors = vectors - origin
-- 
2.43.0


From 3199a7f596a0f4b1e955b999365b60380bc93077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 02/20] fix: rotating a single (1,3) row keeps its layout

---
 xrd_simulator/motion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index ab1b090..4e8db43 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -363,13 +363,15 @@ class _RodriguezRotator(object):
         R = self.get_rotation_matrix(rotation_angle)
         vectors = ensure_torch(vectors)
 
-        if len(vectors.shape) == 1:
+        single_vector = len(vectors.shape) == 1
+        if single_vector:
             vectors = vectors[None, :]
         
         # Handle both scalar and vector rotation_angle cases
         if rotation_angle.ndim == 0:
             # Scalar case: R is (3,3), vectors is (N,3) -> output (N,3)
-            return torch.squeeze(torch.matmul(R, vectors[:, :, None]))
+            rotated_vectors = torch.matmul(R, vectors[:, :, None]).squeeze(-1)
+            return rotated_vectors[0] if single_vector else rotated_vectors
         else:
             # Vector case: R is (N,3,3), vectors is (N,3) -> output (N,3)
             # Use bmm: (N,3,3) × (N,3,1) -> (N,3,1) -> squeeze to (N,3)
-- 
2.43.0


From 0609e6b1271441dc6fc759c001e9f75e4bceb7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 03/20] fix: RigidBodyMotion.translate accepts (N,3) vectors

---
 xrd_simulator/motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index 4e8db43..361e5ad 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -192,7 +192,7 @@ class RigidBodyMotion:
         
         vectors = ensure_torch(vectors)
         
-        if len(vectors.shape) > 1:
+        if len(vectors.shape) > 1 and vectors.shape[-1] != 3:
             translation = self.translation.reshape(3, 1)
         else:
             translation = self.translation
-- 
2.43.0


From aa333c6c34260c87de012db4806ac4d6dc7188eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 04/20] fix: TetraMesh.translate keeps earlier rotations and
 updates of the nodes

---
 xrd_simulator/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 34baafc..017e342 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -226,8 +226,8 @@ class TetraMesh(object):
         if torch.is_tensor(translation_vector):
             translation_vector = utils.ensure_numpy(translation_vector)
         
-        self._mesh.points += translation_vector
-        self.coord = utils.ensure_torch(self._mesh.points, dtype=torch.float64)
+        self.coord = self.coord + utils.ensure_torch(translation_vector, dtype=torch.float64)
+        self._mesh.points = utils.ensure_numpy(self.coord)
         self.ecentroids += utils.ensure_torch(translation_vector, dtype=torch.float64)
         self.espherecentroids += utils.ensure_torch(translation_vector, dtype=torch.float64)
         self.centroid += utils.ensure_torch(translation_vector, dtype=torch.float64)
-- 
2.43.0


From 9d237551b30730524a365bb3eddc46e9105026c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 05/20] fix: element volumes are positive for every node
 ordering

---
 xrd_simulator/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 017e342..b6b46e5 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -456,7 +456,7 @@ class TetraMesh(object):
         b = vertices[:, 2, :] - vertices[:, 0, :]
         c = vertices[:, 3, :] - vertices[:, 0, :]
         evolumes = (1 / 6.0) * torch.sum(torch.cross(a, b, dim=1) * c, dim=1)
-        return evolumes
+        return torch.abs(evolumes)  # independent of the node ordering
 
     def _compute_mesh_spheres(self, coord, enod):
         """Compute minimal bounding spheres for each tetrahedron.
-- 
2.43.0


From 3928b8980f8cbf917ab40f556a49dd1af2bf9edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 06/20] fix: single phase polycrystal without phase map can
 diffract

---
 xrd_simulator/polycrystal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 2458a2d..a6b60be 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -625,8 +625,7 @@ class Polycrystal:
             if len(phases) > 1:
                 raise ValueError("element_phase_map not set for multiphase polycrystal")
             element_phase_map = np.zeros((mesh.number_of_elements,), dtype=int)
-        else:
-            element_phase_map = ensure_torch(element_phase_map)
+        element_phase_map = ensure_torch(element_phase_map)
         return element_phase_map, phases
 
     def _instantiate_eB(
-- 
2.43.0


From 5303391ce610c3f9a4595b517ca319c75545d8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 07/20] fix: respect the requested max_bragg_angle when a
 detector is given

---
 xrd_simulator/polycrystal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index a6b60be..63be312 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -712,9 +712,11 @@ class Polycrystal:
         else:
             source_point = ensure_torch(self.mesh_lab.centroid)
         
-        max_bragg_angle = detector._get_wrapping_cone(
+        cone_angle = detector._get_wrapping_cone(
             beam.wave_vector, source_point
         ).item()
+        if max_bragg_angle is None or max_bragg_angle > cone_angle:
+            max_bragg_angle = cone_angle
 
         assert (
             min_bragg_angle >= 0
-- 
2.43.0


From 459fe55658908364370f7d3039866f0a519ca699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 08/20] fix: unfeasible strains in a batch raise the intended
 ValueError

---
 xrd_simulator/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/utils.py b/xrd_simulator/utils.py
index b01fd11..ecb39f4 100644
--- a/xrd_simulator/utils.py
+++ b/xrd_simulator/utils.py
@@ -333,7 +333,7 @@ def _epsilon_to_b(crystal_strain, B0):
     if torch.any(eigen_vals < 0):
         raise ValueError(
             "Unfeasible strain tensor with value: "
-            + str(_strain_as_vector(crystal_strain))
+            + str(crystal_strain.tolist())
             + ", will invert the unit cell with negative deformation gradient tensor determinant"
         )
     if C.ndim == 3:
-- 
2.43.0


From 5dbb0b1a12f0f26fe4949860fe17923de8b84414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 09/20] fix: lines parallel to and outside of a face have zero
 clip length

---
 xrd_simulator/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/utils.py b/xrd_simulator/utils.py
index ecb39f4..170fac6 100644
--- a/xrd_simulator/utils.py
+++ b/xrd_simulator/utils.py
@@ -213,8 +213,13 @@ def _clip_line_with_convex_polyhedron(
     t_e = torch.max(t_i[:, te_mask], dim=1).values
     t_l = torch.min(t_i[:, tl_mask], dim=1).values
 
+    # A line parallel to a face misses the polyhedron if it runs outside of that face
+    parallel_outside = torch.any(numerator[:, t2 == 0] < 0, dim=1)
+
     # Return clipped lengths, using zero for non-intersecting lines
-    return torch.where(t_l > t_e + 1e-12, t_l - t_e, 0.0)
+    return torch.where(
+        (t_l > t_e + 1e-12) & ~parallel_outside, t_l - t_e, 0.0
+    )
 
 
 def _alpha_to_quarternion(alpha_1, alpha_2, alpha_3):
-- 
2.43.0


From 749344df5e4f80e1ce44c7f910d887c3a7921c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 10/20] fix: report the Laue solution when the half-angle
 equation is linear

---
 xrd_simulator/laue.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/laue.py b/xrd_simulator/laue.py
index 9881447..c013a83 100644
--- a/xrd_simulator/laue.py
+++ b/xrd_simulator/laue.py
@@ -101,6 +101,9 @@ def _find_solutions_to_tangens_half_angle_equation(
     numerator = rho_2 + rho_0
 
     del rho_2
+    # The equation is linear in s where the denominator vanishes
+    linear = denominator == 0
+    s_linear = -numerator / (2 * torch.matmul(rho_1_factor, G_0))
     #Remove 0 denominators
     denominator[denominator==0] = torch.nan
 
@@ -129,9 +132,9 @@ def _find_solutions_to_tangens_half_angle_equation(
     # discriminant[discriminant>10] = torch.nan 
 
     # Calculate solutions for s
-    s1 = -a + torch.sqrt(discriminant)
+    s1 = torch.where(linear, s_linear, -a + torch.sqrt(discriminant))
     s2 = -a - torch.sqrt(discriminant)
-    del a, discriminant
+    del a, discriminant, linear, s_linear
     t1 = 2 * torch.arctan(s1) / delta_omega
     del s1
     indices_t1 = torch.argwhere(torch.logical_and(t1 >= 0, t1 <= 1))
-- 
2.43.0


From dc22a56d7627d617b78a02d42e684a1902c71f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 11/20] fix: detector has exactly the requested number of
 pixels despite round-off

---
 xrd_simulator/detector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index b520994..9ff4a7b 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -413,8 +413,11 @@ class Detector:
         # Get device from det_corner_0 to ensure all tensors are on same device
         dev = self.det_corner_0.device
 
-        zds = torch.arange(0, self.zmax, self.pixel_size_z, device=dev)
-        yds = torch.arange(0, self.ymax, self.pixel_size_y, device=dev)
+        # tolerate round-off such that side = n * pixel_size gives n pixels
+        n_z = int(torch.ceil(self.zmax / self.pixel_size_z - 1e-9))
+        n_y = int(torch.ceil(self.ymax / self.pixel_size_y - 1e-9))
+        zds = torch.arange(n_z, device=dev) * self.pixel_size_z
+        yds = torch.arange(n_y, device=dev) * self.pixel_size_y
         Z, Y = torch.meshgrid(zds, yds, indexing="ij")
         Zds = torch.zeros((len(zds), len(yds), 3), device=dev)
         Yds = torch.zeros((len(zds), len(yds), 3), device=dev)
-- 
2.43.0


From f8a04019441b9d05dd61f4c7640be3dabcb7739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 12/20] fix: macro sampling ignores samples that miss the
 detector box

---
 xrd_simulator/detector.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 9ff4a7b..15d7a05 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1659,13 +1659,20 @@ class Detector:
             zd = out[:, 0]
             yd = out[:, 1]
 
-            row_index = ensure_numpy(zd / self.pixel_size_z).astype(int) - box[0]
-            col_index = ensure_numpy(yd / self.pixel_size_y).astype(int) - box[2]
+            # samples of a hull that is partly off the detector can miss the box
+            row_index = torch.floor(zd / self.pixel_size_z) - box[0]
+            col_index = torch.floor(yd / self.pixel_size_y) - box[2]
+            in_box = (row_index >= 0) & (row_index < box[1] - box[0])
+            in_box &= (col_index >= 0) & (col_index < box[3] - box[2])
+            row_index = ensure_numpy(row_index[in_box]).astype(int)
+            col_index = ensure_numpy(col_index[in_box]).astype(int)
+            clip_lengths = clip_lengths[in_box]
 
             box_intensities = np.zeros((box[1] - box[0], box[3] - box[2]))
             np.add.at(box_intensities, (row_index, col_index), clip_lengths)
-            box_intensities /= box_intensities.sum()
-            box_intensities *= proj_context["convex_hull"].volume
+            if box_intensities.sum() > 0:
+                box_intensities /= box_intensities.sum()
+                box_intensities *= proj_context["convex_hull"].volume
 
             return ensure_torch(box_intensities)
 
-- 
2.43.0


From aecb9755c9f1f94d2b3d5dfd02ed228abed69fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 13/20] fix: hulls that no pixel ray hits no longer turn macro
 frames into NaN

---
 xrd_simulator/detector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 15d7a05..47885f6 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1688,8 +1688,9 @@ class Detector:
 
             # ensure that scattering is proportional to the material volume
             # that is scattering.
-            clip_lengths /= clip_lengths.sum()
-            clip_lengths *= proj_context["convex_hull"].volume
+            if clip_lengths.sum() > 0:  # no ray may hit a hull thinner than a pixel
+                clip_lengths /= clip_lengths.sum()
+                clip_lengths *= proj_context["convex_hull"].volume
             clip_lengths = clip_lengths.reshape(box[1] - box[0], box[3] - box[2])
 
         return clip_lengths
-- 
2.43.0


From 08de38d327cd35f84bc12870279a74c8c7213619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:01 +0000
Subject: [PATCH 14/20] fix: a single Laue solution no longer breaks the peak
 table

---
 xrd_simulator/polycrystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 63be312..35cccb5 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -376,7 +376,7 @@ class Polycrystal:
                 Gxyz,
                 K_out_xyz,
                 Sources_xyz,
-                lorentz_factors.unsqueeze(1),
+                lorentz_factors.reshape(-1, 1),
                 polarization_factors.unsqueeze(1),
                 volumes.unsqueeze(1),
                 two_theta.unsqueeze(1),
-- 
2.43.0


From 70a45400b122deaf8a1731db723b269d2c3ca938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:03 +0000
Subject: [PATCH 15/20] fix: peaks keep the mesh they were computed from when
 the polycrystal is transformed later

---
 xrd_simulator/polycrystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 35cccb5..a7d4c49 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -223,7 +223,7 @@ class Polycrystal:
             "wavelength": beam.wavelength,
             "rotation_axis": rigid_body_motion.rotation_axis,
             # Store mesh and motion data for on-demand hull computation
-            "mesh_lab": self.mesh_lab,
+            "mesh_lab": copy.deepcopy(self.mesh_lab),
             "rigid_body_motion": rigid_body_motion,
             "beam": beam,
             "verbose": verbose,
-- 
2.43.0


From 7708f95cd00cf158c695fb81673b0f2acb60672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:18 +0000
Subject: [PATCH 16/20] fix: nano kernels are centred on the pixel of the hit

---
 xrd_simulator/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 47885f6..8d553ed 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1223,7 +1223,8 @@ class Detector:
         # Airy pattern decays as 1/x^3 in the tails, so we need larger extent
         # for small crystallites (broad patterns)
         # Use ~4 times the first zero to capture sufficient rings
-        radius = torch.tensor(max(4.0 * float(max_first_zero), 8.0))
+        # (rounded up to whole pixels such that the kernel is centred on a pixel)
+        radius = torch.ceil(torch.tensor(max(4.0 * float(max_first_zero), 8.0)))
 
         # Ensure we also capture Gaussian tails (cap at 128 pixels)
         max_airy_radius = 128
-- 
2.43.0


From d440d2493a3b1181bf1ad8082b4d2a73a8ad4ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:49 +0000
Subject: [PATCH 17/20] fix: nano kernels do not depend on the other peaks of a
 batch

---
 xrd_simulator/detector.py | 51 ++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 8d553ed..b9b8e06 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1216,33 +1216,31 @@ class Detector:
         first_zero_pixels = fwhm_pixels * AIRY_FWHM_TO_FIRST_ZERO
 
         sigma = self.gaussian_sigma
-        max_first_zero = first_zero_pixels.max()
         threshold = self.kernel_threshold / 2
-
-        # Calculate kernel radius - need to capture several Airy rings
-        # Airy pattern decays as 1/x^3 in the tails, so we need larger extent
-        # for small crystallites (broad patterns)
-        # Use ~4 times the first zero to capture sufficient rings
-        # (rounded up to whole pixels such that the kernel is centred on a pixel)
-        radius = torch.ceil(torch.tensor(max(4.0 * float(max_first_zero), 8.0)))
-
-        # Ensure we also capture Gaussian tails (cap at 128 pixels)
         max_airy_radius = 128
-        while radius <= max_airy_radius:
-            g_val = torch.exp(-(radius**2) / (2 * sigma**2))
-            if g_val < threshold:
-                break
-            radius = radius * 2
-        if radius > max_airy_radius:
-            if self._verbose:
-                print(
-                    f"Airy kernel radius should be {radius.item()} but limited to {max_airy_radius}"
-                )
-            radius = torch.tensor(max_airy_radius)
 
-        ax = torch.arange(-radius, radius + 1, dtype=torch.float64)
-        yy, zz = torch.meshgrid(ax, ax, indexing="ij")
-        r = torch.sqrt(yy**2 + zz**2)
+        def kernel_radius(first_zero: float) -> torch.Tensor:
+            """Kernel radius in pixels, given by the peak's own pattern alone."""
+            # Calculate kernel radius - need to capture several Airy rings
+            # Airy pattern decays as 1/x^3 in the tails, so we need larger extent
+            # for small crystallites (broad patterns)
+            # Use ~4 times the first zero to capture sufficient rings
+            # (rounded up to whole pixels such that the kernel is centred on a pixel)
+            radius = torch.ceil(torch.tensor(max(4.0 * first_zero, 8.0)))
+
+            # Ensure we also capture Gaussian tails (cap at 128 pixels)
+            while radius <= max_airy_radius:
+                g_val = torch.exp(-(radius**2) / (2 * sigma**2))
+                if g_val < threshold:
+                    break
+                radius = radius * 2
+            if radius > max_airy_radius:
+                if self._verbose:
+                    print(
+                        f"Airy kernel radius should be {radius.item()} but limited to {max_airy_radius}"
+                    )
+                radius = torch.tensor(max_airy_radius)
+            return radius
 
         kernels = []
         max_size = 0
@@ -1299,7 +1297,6 @@ class Detector:
             else:
                 return airy
 
-        r_np = r.cpu().numpy()
         sigma_np = float(sigma)
 
         for first_zero in first_zero_pixels:
@@ -1309,6 +1306,10 @@ class Detector:
             if first_zero_np < 0.5:
                 kernel = self.gaussian_kernel
             else:
+                radius = kernel_radius(first_zero_np)
+                ax = torch.arange(-radius, radius + 1, dtype=torch.float64)
+                yy, zz = torch.meshgrid(ax, ax, indexing="ij")
+                r_np = torch.sqrt(yy**2 + zz**2).cpu().numpy()
                 kernel = ensure_torch(airy_profile(r_np, first_zero_np, sigma_np))
 
             kernel = kernel / kernel.sum()
-- 
2.43.0


From fc65d80e9d1a59bb1ad47e9601a8b4f8fd7035f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:46 +0000
Subject: [PATCH 18/20] fix: nano kernel width does not depend on the
 orientation of the detector normal

---
 xrd_simulator/detector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index b9b8e06..045445d 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -978,7 +978,7 @@ class Detector:
         """
         detector_distance = torch.linalg.norm(self.det_corner_0)
         incident_angles_rad = incident_angles * torch.pi / 180
-        R = detector_distance / torch.cos(incident_angles_rad)
+        R = detector_distance / torch.abs(torch.cos(incident_angles_rad))
 
         # Compute characteristic width parameter in pixels
         # Airy: first_zero = FWHM * R / pixel_size * 1.1861
@@ -1204,7 +1204,7 @@ class Detector:
         """
         detector_distance = torch.linalg.norm(self.det_corner_0)
         incident_angles_rad = incident_angles * torch.pi / 180
-        R = detector_distance / torch.cos(incident_angles_rad)
+        R = detector_distance / torch.abs(torch.cos(incident_angles_rad))
 
         # Convert FWHM in radians to pixel scale
         fwhm_pixels = fwhm_rad * R / self.pixel_size_z
-- 
2.43.0


From 34a79f83a085ec614653910aaf81e13cef36fef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:25 +0000
Subject: [PATCH 19/20] fix: macro projections reach the last pixel row and
 column

---
 xrd_simulator/detector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 045445d..110db45 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -590,8 +590,8 @@ class Detector:
             max_zd, max_yd
         )
 
-        max_row_indx = min(max_row_indx + 1, int(zmax / self.pixel_size_z))
-        max_col_indx = min(max_col_indx + 1, int(ymax / self.pixel_size_y))
+        max_row_indx = min(max_row_indx + 1, self.pixel_coordinates.shape[0])
+        max_col_indx = min(max_col_indx + 1, self.pixel_coordinates.shape[1])
 
         return min_row_indx, max_row_indx, min_col_indx, max_col_indx
 
-- 
2.43.0


From 58b3846b2a1b98a639a83cef605f8a7d51f9a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:59 +0000
Subject: [PATCH 20/20] fix: polycrystal mesh file is written next to the .pc
 file when the path has other dots

---
 xrd_simulator/polycrystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index a7d4c49..27749fb 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -456,7 +456,7 @@ class Polycrystal:
             xdmf_path = path + ".xdmf"
         else:
             pickle_path = path
-            xdmf_path = path.split(".")[0] + ".xdmf"
+            xdmf_path = path[: -len(".pc")] + ".xdmf"
         with open(pickle_path, "wb") as f:
             dill.dump(self, f, dill.HIGHEST_PROTOCOL)
         if save_mesh_as_xdmf:
-- 
2.43.0

