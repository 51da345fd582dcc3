From 1ad5c675151d394479a7be79313941e8d9df180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:21 +0000
Subject: [PATCH 01/24] fix: keep partial surfaces out of a component when
 meshing fails

Component.surface() cleared self.surfaces before doing any work. A worker
error or an interrupt then left an empty or partial set of surfaces behind,
and the next read of Component.mesh either failed or returned a mesh with
missing patches.
---
 src/hypervehicle/components/component.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index b784f60..c4122ae 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -287,14 +287,14 @@ class Component(AbstractComponent):
             )
             return (key, surface)
 
-        self.surfaces = {}
+        surfaces = {}
         if self._multiprocess is True:
             # Initialise surfaces and pool
             pool = Pool()
 
             # Submit tasks
             for result in pool.starmap(wrapper, case_list):
-                self.surfaces[result[0]] = result[1]
+                surfaces[result[0]] = result[1]
 
         else:
             for case in case_list:
@@ -302,9 +302,12 @@ class Component(AbstractComponent):
                 pat = case[1]
                 print(f"START: Creating stl for '{k}'.")
                 result = wrapper(k, pat, case[2], case[3])
-                self.surfaces[result[0]] = result[1]
+                surfaces[result[0]] = result[1]
                 print(f"  DONE: Creating stl for '{k}'.")
 
+        # Only keep a complete set of surfaces
+        self.surfaces = surfaces
+
     def to_vtk(self):
         raise NotImplementedError("This method has not been implemented yet.")
         # TODO - check for processed grids
-- 
2.43.0


From 05169ebde6df8a354ef3e01aa0a7840c656be186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:21 +0000
Subject: [PATCH 02/24] fix: release the worker pool when meshing fails

The pool was only cleaned up by garbage collection, so its processes stayed
alive for as long as the traceback of a failed meshing was referenced.
---
 src/hypervehicle/components/component.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index c4122ae..fd3ee4d 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -290,11 +290,10 @@ class Component(AbstractComponent):
         surfaces = {}
         if self._multiprocess is True:
             # Initialise surfaces and pool
-            pool = Pool()
-
-            # Submit tasks
-            for result in pool.starmap(wrapper, case_list):
-                surfaces[result[0]] = result[1]
+            with Pool() as pool:
+                # Submit tasks
+                for result in pool.starmap(wrapper, case_list):
+                    surfaces[result[0]] = result[1]
 
         else:
             for case in case_list:
-- 
2.43.0


From 5171a730a7a15f851f1de67e9099f70903c9f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:21 +0000
Subject: [PATCH 03/24] fix: honour per-edge resolutions in both patch
 directions

A dictionary stl_resolution was only applied in the r direction, and
reflecting a component with one raised a KeyError when it was meshed.
---
 src/hypervehicle/components/component.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index fd3ee4d..0089fdc 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -237,6 +237,10 @@ class Component(AbstractComponent):
             mirrored_patches = {}
             for key, patch in self.patches.items():
                 mirrored_patches[f"{key}_mirrored"] = MirroredPatch(patch, axis=axis)
+                if key in self.patch_res_r:
+                    # Mirrored patch shares the resolution of the original
+                    self.patch_res_r[f"{key}_mirrored"] = self.patch_res_r[key]
+                    self.patch_res_s[f"{key}_mirrored"] = self.patch_res_s[key]
 
             # Now either add the reflected patches to the same component, or
             # replace the patches with their reflected versions
@@ -273,7 +277,7 @@ class Component(AbstractComponent):
             ]
         else:
             case_list = [
-                [k, patch, self.patch_res_r[k], self.patch_res_r[k]]
+                [k, patch, self.patch_res_r[k], self.patch_res_s[k]]
                 for k, patch in self.patches.items()
             ]
 
-- 
2.43.0


From b35fe07844616a31865a51032c292b321bd9eeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:21 +0000
Subject: [PATCH 04/24] fix: sample j clustering at the j resolution

The number of samples was taken from the i direction, which gave an index
error or a patch that was cut short when the two resolutions differ.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index ebfa8b0..757d09c 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -74,7 +74,7 @@ def surfce_to_stl(
         r_list = default_vertex_func(lb=0.0, ub=1.0, steps=ni + 1, spacing=si)
 
     if j_clustering_func:
-        s_list = [j_clustering_func(i) for i in np.linspace(0, 1, ni + 1)]
+        s_list = [j_clustering_func(i) for i in np.linspace(0, 1, nj + 1)]
     else:
         s_list = default_vertex_func(lb=0.0, ub=1.0, steps=nj + 1, spacing=sj)
 
-- 
2.43.0


From decb8084345c298a807b15448424d3b58063becd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:05 +0000
Subject: [PATCH 05/24] fix: make Vehicle.generate() repeatable

Generating a vehicle again kept the mirrored patches of the previous
generation, which were then modified, curved and mirrored a second time, and
it kept meshes made from the previous patches.
---
 src/hypervehicle/vehicle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index e143201..3a87484 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -203,10 +203,16 @@ class Vehicle:
             utilities.print_banner()
             print("Generating component patches.")
 
+        self._generated = False
         for component in self.components:
             if self.verbosity > 1:
                 print(f"  Generating patches for {component.componenttype} component.")
 
+            # Discard anything left from a previous generation
+            component.patches = {}
+            component.surfaces = None
+            component.mesh = None
+
             # Generate component patches
             component.generate_patches()
 
-- 
2.43.0


From 6a4cf621861fd40987b253df1af62f75b77f545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:05 +0000
Subject: [PATCH 06/24] fix: discard the mesh of a component when its patches
 change

Rotating, translating, curving or reflecting a component that had already
been meshed left the old mesh in place, so it was the one exported.
---
 src/hypervehicle/components/component.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 0089fdc..fe34b08 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -171,8 +171,14 @@ class Component(AbstractComponent):
             setattr(result, k, deepcopy(v, memo))
         return result
 
+    def _discard_mesh(self):
+        # Discard any mesh of the patches, as they are about to change
+        self.surfaces = None
+        self._mesh = None
+
     def curve(self):
         if self._curvatures is not None:
+            self._discard_mesh()
             for curvature in self._curvatures:
                 for key, patch in self.patches.items():
                     self.patches[key] = CurvedPatch(
@@ -206,6 +212,7 @@ class Component(AbstractComponent):
         self._mesh = value
 
     def rotate(self, angle: float = 0, axis: str = "y"):
+        self._discard_mesh()
         for key, patch in self.patches.items():
             self.patches[key] = RotatedPatch(patch, np.deg2rad(angle), axis=axis)
 
@@ -217,6 +224,7 @@ class Component(AbstractComponent):
             offset_function = offset
 
         # Could wrap it in a lambda if provided
+        self._discard_mesh()
         for key, patch in self.patches.items():
             self.patches[key] = OffsetPatchFunction(patch, offset_function)
 
@@ -227,6 +235,7 @@ class Component(AbstractComponent):
 
     def apply_modifier(self):
         if self._modifier_function:
+            self._discard_mesh()
             for key, patch in self.patches.items():
                 self.patches[key] = OffsetPatchFunction(patch, self._modifier_function)
 
@@ -242,6 +251,8 @@ class Component(AbstractComponent):
                     self.patch_res_r[f"{key}_mirrored"] = self.patch_res_r[key]
                     self.patch_res_s[f"{key}_mirrored"] = self.patch_res_s[key]
 
+            self._discard_mesh()
+
             # Now either add the reflected patches to the same component, or
             # replace the patches with their reflected versions
             if self._append_reflection:
-- 
2.43.0


From 14a0c563089790a281aa58ec2cf131781e8da1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:05 +0000
Subject: [PATCH 07/24] fix: undo a vehicle transformation that fails part way

An error in one of the transformations left the components before it moved
and the others in place, so the vehicle came apart.
---
 src/hypervehicle/vehicle.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index 3a87484..88ba5ef 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -298,11 +298,20 @@ class Vehicle:
             transformations = [transformations]
 
         # Apply transformations
-        for component in self.components:
-            for transform in transformations:
-                func = getattr(component, transform[0])
-                func(*transform[1:])
+        previous_patches = [dict(component.patches) for component in self.components]
+        try:
+            for component in self.components:
+                for transform in transformations:
+                    func = getattr(component, transform[0])
+                    func(*transform[1:])
+
+        except BaseException:
+            # Do not leave the vehicle partly transformed
+            for component, patches in zip(self.components, previous_patches):
+                component.patches = patches
+            raise
 
+        for component in self.components:
             # Reset any meshes generated from un-transformed patches
             component.surfaces = None
             component.mesh = None
-- 
2.43.0


From 63650c5e588d2cdeaac7eee9e6dcd8129fc95eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:05 +0000
Subject: [PATCH 08/24] fix: apply the options of components added to a
 composite

CompositeComponent.add_component() accepts reflections, curvatures and
transformations for each child, but they were never applied.
---
 src/hypervehicle/components/composite.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hypervehicle/components/composite.py b/src/hypervehicle/components/composite.py
index 1b1b17f..4df809a 100644
--- a/src/hypervehicle/components/composite.py
+++ b/src/hypervehicle/components/composite.py
@@ -121,7 +121,11 @@ class CompositeComponent(Component):
     def generate_patches(self):
         # Generate child patches
         for component in self.components:
+            component.patches = {}
             component.generate_patches()
+            component.curve()
+            component.reflect()
+            component.transform()
 
         # Merge patches
         merged = {}
-- 
2.43.0


From 71481693a600a15626c98d9f9dd66c58d895f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:05 +0000
Subject: [PATCH 09/24] fix: shift inertias with the parallel axis theorem

m * r**2 was broadcast over the rows of the inertia matrix, so the matrix of
a vehicle with several components was not even symmetric.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 757d09c..44807c6 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -218,7 +218,7 @@ def assess_inertial_properties(
     for component in vehicle._named_components:
         m = masses[component]
         r = cgs[component] - composite_cog
-        I_adj = inertias[component] + m * r**2
+        I_adj = inertias[component] + m * (np.dot(r, r) * np.eye(3) - np.outer(r, r))
 
         shifted_inertias[component] = I_adj
         composite_inertia += I_adj
-- 
2.43.0


From 62ec79f3b5b877843a35eb99d51c0334954ec126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:05 +0000
Subject: [PATCH 10/24] fix: keep analysis results consistent with the geometry

Transforming an analysed vehicle left the centre of gravity and inertia of
the previous position in place, and analysing with new densities updated the
masses but not the results written next to them by to_stl().
---
 src/hypervehicle/vehicle.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index 88ba5ef..463db63 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -31,6 +31,7 @@ class Vehicle:
 
         # Analysis attributes
         self.analysis_results = None
+        self._analysed_densities = None
         self.component_properties = None
         self._volmass = None
         self.volume = None
@@ -204,6 +205,7 @@ class Vehicle:
             print("Generating component patches.")
 
         self._generated = False
+        self.analysis_results = None
         for component in self.components:
             if self.verbosity > 1:
                 print(f"  Generating patches for {component.componenttype} component.")
@@ -240,10 +242,7 @@ class Vehicle:
 
         # Run analysis
         if self._analyse_on_generation:
-            analysis_results = self.analyse(self._analyse_on_generation)
-            self.analysis_results = dict(
-                zip(("volume", "mass", "cog", "moi"), analysis_results)
-            )
+            self.analyse(self._analyse_on_generation)
 
         if self.verbosity > 0:
             print("All component patches generated.")
@@ -316,6 +315,10 @@ class Vehicle:
             component.surfaces = None
             component.mesh = None
 
+        # Keep any analysis results consistent with the transformed geometry
+        if self.analysis_results:
+            self.analyse(self._analysed_densities)
+
     def to_stl(self, prefix: str = None, merge: Union[bool, List[str]] = False) -> None:
         """Writes the vehicle components to STL file. If analysis results are
         present, they will also be written to file, either as CSV, or using
@@ -471,6 +474,11 @@ class Vehicle:
         for k, v in vehicle_properties.items():
             setattr(self, k, v)
 
+        self.analysis_results = {
+            k: vehicle_properties[k] for k in ("volume", "mass", "cog", "moi")
+        }
+        self._analysed_densities = densities
+
         # Save component properties
         self.component_properties = component_properties
 
-- 
2.43.0


From 9ec0190986860434de1ceba43e12b7accdcecfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:06 +0000
Subject: [PATCH 11/24] fix: raise an error when an STL file cannot be written
 in full

The triangles were written with ndarray.tofile(), which ignores errors when
its buffer is flushed. On a full disk the export reported success and left a
truncated file.
---
 src/hypervehicle/components/component.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index fe34b08..6ac472c 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -1,3 +1,4 @@
+import io
 import pymeshfix
 import numpy as np
 from stl import mesh
@@ -339,8 +340,11 @@ class Component(AbstractComponent):
             stl_mesh = self.mesh
 
             if outfile is not None:
-                # Write STL to file
-                stl_mesh.save(outfile)
+                # Write STL to file, from memory so that write errors are raised
+                buffer = io.BytesIO()
+                stl_mesh.save(outfile, fh=buffer)
+                with open(outfile, "wb") as f:
+                    f.write(buffer.getvalue())
 
                 # Clean it
                 # NOTE - disabling this for now as it can cause severe mesh deformation
-- 
2.43.0


From 30e976690bdf847601cb57a0c92aa980fba0357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:06 +0000
Subject: [PATCH 12/24] fix: raise an error when analysis results cannot be
 written in full

ndarray.tofile() does not report write errors for text files, so a full disk
left empty or truncated centre of gravity and inertia files behind.
---
 src/hypervehicle/utilities.py | 15 +++++++++++----
 src/hypervehicle/vehicle.py   | 10 ++++++----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 44807c6..8b343f7 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -242,6 +242,13 @@ def assess_inertial_properties(
     return vehicle_properties, component_properties
 
 
+def write_array(array: np.ndarray, filepath: str):
+    """Writes an array to a text file. Unlike ndarray.tofile, an error is raised
+    when the file could not be written in full."""
+    with open(filepath, "w") as f:
+        f.write(", ".join(repr(value) for value in array.ravel().tolist()))
+
+
 class SensitivityStudy:
     """
     Computes the geometric sensitivities using finite differencing.
@@ -514,13 +521,13 @@ class SensitivityStudy:
 
                 # Save others
                 for param in self.scalar_sensitivities:
-                    self.scalar_sensitivities[param]["cog"].tofile(
+                    write_array(
+                        self.scalar_sensitivities[param]["cog"],
                         os.path.join(properties_dir, f"{param}_cog_sensitivity.txt"),
-                        sep=", ",
                     )
-                    self.scalar_sensitivities[param]["moi"].tofile(
+                    write_array(
+                        self.scalar_sensitivities[param]["moi"],
                         os.path.join(properties_dir, f"{param}_moi_sensitivity.txt"),
-                        sep=", ",
                     )
 
             # Also save user-defined property sensitivities
diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index 463db63..da073ce 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -391,13 +391,15 @@ class Vehicle:
             self._volmass.to_csv(os.path.join(properties_dir, f"{prefix}_volmass.csv"))
 
             # Write c.o.g. to file
-            self.analysis_results["cog"].tofile(
-                os.path.join(properties_dir, f"{prefix}_cog.txt"), sep=", "
+            utilities.write_array(
+                self.analysis_results["cog"],
+                os.path.join(properties_dir, f"{prefix}_cog.txt"),
             )
 
             # Write M.O.I. to file
-            self.analysis_results["moi"].tofile(
-                os.path.join(properties_dir, f"{prefix}_moi.txt"), sep=", "
+            utilities.write_array(
+                self.analysis_results["moi"],
+                os.path.join(properties_dir, f"{prefix}_moi.txt"),
             )
 
         # Write user-defined vehicle properties
-- 
2.43.0


From 002e68b80818902aefb8b56fd97a9b0f337db7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:06 +0000
Subject: [PATCH 13/24] fix: allow exports into a directory that is created
 meanwhile

Checking for a directory before making it fails with FileExistsError when
another export into the same directory creates it in between.
---
 src/hypervehicle/utilities.py | 14 ++++----------
 src/hypervehicle/vehicle.py   |  6 ++----
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 8b343f7..e18ecd7 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -476,9 +476,7 @@ class SensitivityStudy:
             if outdir is None:
                 outdir = os.getcwd()
 
-            if not os.path.exists(outdir):
-                # Make the directory
-                os.mkdir(outdir)
+            os.makedirs(outdir, exist_ok=True)
 
             # Save sensitivity data for each component
             all_sens_data = pd.DataFrame()
@@ -496,8 +494,7 @@ class SensitivityStudy:
             if self.scalar_sensitivities:
                 # Make analysis results directory
                 properties_dir = os.path.join(outdir, f"scalar_sensitivities")
-                if not os.path.exists(properties_dir):
-                    os.mkdir(properties_dir)
+                os.makedirs(properties_dir, exist_ok=True)
 
                 # Save volume and mass
                 reformatted_results = {}
@@ -533,8 +530,7 @@ class SensitivityStudy:
             # Also save user-defined property sensitivities
             if self.property_sensitivities:
                 properties_dir = os.path.join(outdir, f"scalar_sensitivities")
-                if not os.path.exists(properties_dir):
-                    os.mkdir(properties_dir)
+                os.makedirs(properties_dir, exist_ok=True)
 
                 pd.DataFrame(self.property_sensitivities).to_csv(
                     os.path.join(properties_dir, "property_sensitivity.csv")
@@ -685,9 +681,7 @@ def append_sensitivities_to_tri(
 
     else:
         # Desired outdir provided, check it exists
-        if not os.path.exists(outdir):
-            # Make the directory
-            os.mkdir(outdir)
+        os.makedirs(outdir, exist_ok=True)
 
     # TODO - rename to 'combine sensitivity' or "combine_comp_sens"
     # Parse .tri file
diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index da073ce..5cc4916 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -384,8 +384,7 @@ class Vehicle:
 
             # Make analysis results directory
             properties_dir = f"{prefix}_properties"
-            if not os.path.exists(properties_dir):
-                os.mkdir(properties_dir)
+            os.makedirs(properties_dir, exist_ok=True)
 
             # Write volume and mass to file
             self._volmass.to_csv(os.path.join(properties_dir, f"{prefix}_volmass.csv"))
@@ -409,8 +408,7 @@ class Vehicle:
 
             # Make analysis results directory
             properties_dir = f"{prefix}_properties"
-            if not os.path.exists(properties_dir):
-                os.mkdir(properties_dir)
+            os.makedirs(properties_dir, exist_ok=True)
 
             # Write properties to file
             pd.Series(self.properties).to_csv(
-- 
2.43.0


From 893197b0975f77428ec7cf243770114ec821fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:06 +0000
Subject: [PATCH 14/24] fix: merge the STL files that were just written

The names of the files to merge did not follow the names used for writing
when a prefix was given or a component was not named, so the merge failed or
picked up files of an earlier export.
---
 src/hypervehicle/vehicle.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index 5cc4916..8955e09 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -352,6 +352,7 @@ class Vehicle:
                 print(f"{s}.")
 
         types_generated = {}
+        stl_names = []
         for component in self.components:
             # Get component count
             no = types_generated.get(component.componenttype, 0)
@@ -373,6 +374,8 @@ class Vehicle:
                 print(f"  Writing: {stl_name}                 ", end="\r")
 
             component.to_stl(stl_name)
+            if not component._ghost:
+                stl_names.append(stl_name)
 
             # Update component count
             types_generated[component.componenttype] = no + 1
@@ -428,13 +431,8 @@ class Vehicle:
                 if not prefix:
                     prefix = self.name
 
-                # Get component names (excluding ghost components)
-                filenames = []
-                for name, comp in self._named_components.items():
-                    if not comp._ghost:
-                        # Append
-                        filenames.append(f"{name}.stl")
-                utilities.merge_stls(stl_files=filenames, name=prefix)
+                # Merge the files just written (excludes ghost components)
+                utilities.merge_stls(stl_files=stl_names, name=prefix)
 
         if self.verbosity > 0:
             print("\rAll components written to STL file format.", end="\n")
-- 
2.43.0


From 6b71240d9ddd02a2094626589ebc0ca012441b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:06 +0000
Subject: [PATCH 15/24] fix: combine sensitivities before removing duplicate
 vertices

Duplicates were removed for each parameter on its own. A vertex could then be
kept for one parameter and removed for another, and the combined table got
missing values in its coordinates and sensitivities. The default HIFiRE-4
study was affected.
---
 src/hypervehicle/utilities.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index e18ecd7..6978ae6 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -373,6 +373,7 @@ class SensitivityStudy:
             print("    Parameters: ", parameter_dict.keys())
 
         sensitivities = {}
+        vertex_sensitivities = {}
         analysis_sens = {}
         component_analysis_sens = {}
         property_sens = {}
@@ -381,6 +382,7 @@ class SensitivityStudy:
                 print(f"    Generating for {parameter}.")
 
             sensitivities[parameter] = {}
+            vertex_sensitivities[parameter] = {}
 
             # Create copy
             adjusted_parameters = parameter_dict.copy()
@@ -434,17 +436,25 @@ class SensitivityStudy:
                     parameter,
                 )
 
-                sensitivities[parameter][component] = sensitivity_df
+                vertex_sensitivities[parameter][component] = sensitivity_df
+
+                # Delete duplicate vertices
+                sensitivities[parameter][component] = sensitivity_df[
+                    ~sensitivity_df.duplicated()
+                ]
 
         if self.verbosity > 0:
             print("    Done.")
 
+        # Combine across parameters
+        component_sens = self._combine(nominal_instance, vertex_sensitivities)
+
         # Return output
         self.parameter_sensitivities = sensitivities
         self.scalar_sensitivities = analysis_sens
         self.component_scalar_sensitivities = component_analysis_sens
         self.property_sensitivities = property_sens
-        self.component_sensitivities = self._combine(nominal_instance, sensitivities)
+        self.component_sensitivities = component_sens
         self.nominal_vehicle_instance = nominal_instance
 
         if self.verbosity > 0:
@@ -560,7 +570,7 @@ class SensitivityStudy:
         Returns
         --------
         df : pd.DataFrame
-            A DataFrame of the finite difference results.
+            A DataFrame of the finite difference results, for every vertex.
         """
         # Take the vector difference
         diff = mesh2.vectors - mesh1.vectors
@@ -595,9 +605,6 @@ class SensitivityStudy:
         # Merge dataframes
         df = df.merge(sensitivities, left_index=True, right_index=True)
 
-        # Delete duplicate vertices
-        df = df[~df.duplicated()]
-
         return df
 
     @staticmethod
@@ -615,7 +622,8 @@ class SensitivityStudy:
                 ]
                 df = pd.concat([df, p_s], axis=1)
 
-            allsens[component] = df
+            # Delete duplicate vertices
+            allsens[component] = df[~df.duplicated()]
 
         return allsens
 
-- 
2.43.0


From 4ad992c69e35de63f6b3533610eea3b6b6ef0458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:06 +0000
Subject: [PATCH 16/24] fix: leave the combined sensitivity file out wherever
 it is

The combined file was only recognised when listed by its bare name, so a
path to it was read as one more component, and the list of the caller was
modified.
---
 src/hypervehicle/utilities.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 6978ae6..e9cd923 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -707,11 +707,11 @@ def append_sensitivities_to_tri(
     points_df = pd.DataFrame(points_data_list, columns=["x", "y", "z"]).dropna()
 
     # Ensure previous components sensitivity file is not included
-    try:
-        del dp_filenames[dp_filenames.index(combined_sens_fn)]
-    except ValueError:
-        # It is not in there
-        pass
+    dp_filenames = [
+        filename
+        for filename in dp_filenames
+        if os.path.basename(filename) != os.path.basename(combined_sens_fn)
+    ]
 
     # Load and concatenate sensitivity data across components
     dp_df = pd.DataFrame()
-- 
2.43.0


From 1174378d5a34ac00c25e91f5a4f163cfcc03370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:06 +0000
Subject: [PATCH 17/24] fix: replace sensitivities already present in a tri
 file

Appending sensitivities to the same file again added a second array of the
same name for each parameter.
---
 src/hypervehicle/utilities.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index e9cd923..3c33b57 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -795,6 +795,12 @@ def append_sensitivities_to_tri(
     # Write the matched sensitivity df to i.tri file as new xml element
     # NumberOfComponents is how many sensitivity components there are (3 for x,y,z)
     for parameter in parameters:
+        # Replace the sensitivities of a previous run
+        for previous in piece.findall("PointData"):
+            names = [array.get("Name") for array in previous]
+            if names == [f"{parameter}_sens"]:
+                piece.remove(previous)
+
         attribs = {
             "Name": f"{parameter}_sens",
             "NumberOfComponents": "3",
-- 
2.43.0


From 324187697e672e253bfffdf5dec156ce748beaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:06 +0000
Subject: [PATCH 18/24] fix: do not lose the tri file when writing it fails

The file was overwritten in place, so a full disk or an interruption while
writing destroyed the only copy of the geometry.
---
 src/hypervehicle/utilities.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 3c33b57..a9952e2 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -812,8 +812,15 @@ def append_sensitivities_to_tri(
         PointDataArray = ET.SubElement(PointData, "DataArray", attribs)
         PointDataArray.text = param_data[parameter]
 
-    # Save to file
-    tree.write(components_filepath)
+    # Save to file, without losing the original if it cannot be written
+    temporary_filepath = f"{components_filepath}.tmp"
+    try:
+        tree.write(temporary_filepath)
+        os.replace(temporary_filepath, components_filepath)
+    except BaseException:
+        if os.path.exists(temporary_filepath):
+            os.remove(temporary_filepath)
+        raise
 
     return match_fraction
 
-- 
2.43.0


From 49d859b22cc6b35d85916dab8126be0f9d2ea647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:33 +0000
Subject: [PATCH 19/24] fix: swept patches accept parameters that exceed the
 ends by a rounding error

Meshing a swept component with Roberts clustering raised an IndexError for
some values of beta, because the last sample was 1 + 2e-16.
---
 src/hypervehicle/geometry/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 9e0919d..4a5c575 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -699,6 +699,8 @@ class SweptPatchfromEdges(ParametricSurface):
 
     def __call__(self, r, s) -> Vector3:
         r_slices = np.linspace(0, 1, self.n_edges)
+        # Clustering functions may exceed the ends by a rounding error
+        r = min(max(r, 0.0), 1.0)
         if r in r_slices:
             # can evaluate exactly
             i = np.where(r_slices == r)[0][0]
-- 
2.43.0


From 3bc2b53ad8aab0e33df0c4d64c2abd87bd248024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:16 +0000
Subject: [PATCH 20/24] fix: analyse a vehicle with current versions of numpy

The areas of a mesh are a column, and its sum, an array with one element, is
no longer converted to a float implicitly. Every analysis raised a TypeError.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index a9952e2..97e16cc 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -192,7 +192,7 @@ def assess_inertial_properties(
         )
 
         # Also calculate surface area
-        area = float(sum(component.mesh.areas))
+        area = float(np.sum(component.mesh.areas))
 
         # Save component result
         volumes[name] = volume
-- 
2.43.0


From 1286b2a9a6c3d21c18104ef6c531e7a56e5f7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:55 +0000
Subject: [PATCH 21/24] fix: undo a transformation when the analysis that
 follows it fails

Transforming an analysed vehicle meshes and analyses it again. When that
failed, the call raised an error but the vehicle had moved.
---
 src/hypervehicle/vehicle.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index 8955e09..de2d385 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -304,21 +304,22 @@ class Vehicle:
                     func = getattr(component, transform[0])
                     func(*transform[1:])
 
+                # Reset any meshes generated from un-transformed patches
+                component.surfaces = None
+                component.mesh = None
+
+            # Keep any analysis results consistent with the transformed geometry
+            if self.analysis_results:
+                self.analyse(self._analysed_densities)
+
         except BaseException:
             # Do not leave the vehicle partly transformed
             for component, patches in zip(self.components, previous_patches):
                 component.patches = patches
+                component.surfaces = None
+                component.mesh = None
             raise
 
-        for component in self.components:
-            # Reset any meshes generated from un-transformed patches
-            component.surfaces = None
-            component.mesh = None
-
-        # Keep any analysis results consistent with the transformed geometry
-        if self.analysis_results:
-            self.analyse(self._analysed_densities)
-
     def to_stl(self, prefix: str = None, merge: Union[bool, List[str]] = False) -> None:
         """Writes the vehicle components to STL file. If analysis results are
         present, they will also be written to file, either as CSV, or using
-- 
2.43.0


From d3f776aa968acb9db575573225f6f2fb32526a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:56 +0000
Subject: [PATCH 22/24] fix: analyse again with the densities given, not with
 later changes of them

A transformation repeats the last analysis. The caller may have changed the
dictionary in the meantime.
---
 src/hypervehicle/vehicle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index de2d385..fea31f4 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -1,4 +1,5 @@
 import os
+from copy import copy
 import pandas as pd
 from hypervehicle import utilities
 from hypervehicle.components.component import Component
@@ -476,7 +477,7 @@ class Vehicle:
         self.analysis_results = {
             k: vehicle_properties[k] for k in ("volume", "mass", "cog", "moi")
         }
-        self._analysed_densities = densities
+        self._analysed_densities = copy(densities)
 
         # Save component properties
         self.component_properties = component_properties
-- 
2.43.0


From 492feb4342d294f8f4b11d9b6dc90668914dfd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:56 +0000
Subject: [PATCH 23/24] fix: append sensitivities with current versions of
 pandas

With pandas 3 the values of a row are read-only, so that rounding them
raised a ValueError as soon as one point had a match.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 97e16cc..6119b9d 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -743,7 +743,7 @@ def append_sensitivities_to_tri(
         match = match_x & match_y & match_z
         try:
             # TODO - what if there are multiple matches? (due to intersect perturbations)
-            matched_data = dp_df[match].iloc[0][param_cols].values
+            matched_data = dp_df[match].iloc[0][param_cols].to_numpy(copy=True)
 
             # Round off infinitesimally small values
             matched_data[abs(matched_data) < rounding_tolerance] = 0
-- 
2.43.0


From be965660b82e0e81a2958c91e14325df14687a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:30:27 +0000
Subject: [PATCH 24/24] fix: make analysis results available only when they are
 complete

A thread that exported the vehicle while another one analysed it for the
first time failed, as results were announced before the table of volumes
and masses existed. The values returned could be those of an analysis made
by another thread.
---
 src/hypervehicle/vehicle.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index fea31f4..b2753c5 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -470,15 +470,6 @@ class Vehicle:
             vehicle=self, component_densities=densities
         )
 
-        # Unpack vehicle properties
-        for k, v in vehicle_properties.items():
-            setattr(self, k, v)
-
-        self.analysis_results = {
-            k: vehicle_properties[k] for k in ("volume", "mass", "cog", "moi")
-        }
-        self._analysed_densities = copy(densities)
-
         # Save component properties
         self.component_properties = component_properties
 
@@ -490,17 +481,22 @@ class Vehicle:
             [
                 component_vm,
                 pd.DataFrame(
-                    data={
-                        "mass": self.mass,
-                        "volume": self.volume,
-                        "area": vehicle_properties["area"],
-                    },
+                    data={k: vehicle_properties[k] for k in ["mass", "volume", "area"]},
                     index=["vehicle"],
                 ),
             ]
         )
 
-        return self.volume, self.mass, self.cog, self.moi
+        # Unpack vehicle properties
+        for k, v in vehicle_properties.items():
+            setattr(self, k, v)
+
+        # Results are available once everything they consist of is
+        self._analysed_densities = copy(densities)
+        results = {k: vehicle_properties[k] for k in ("volume", "mass", "cog", "moi")}
+        self.analysis_results = results
+
+        return tuple(results.values())
 
     def add_property(self, name: str, value: float):
         """Add a named property to the vehicle. Currently only supports
-- 
2.43.0

