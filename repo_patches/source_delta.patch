From 761ff15df913a5ad6cade5697d1b38ce7125ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 01/21] fix: masked retrieval must not overwrite the stored
 data

get_data() and the ShallotGrid getters wrote the NaNs of the mask into the
property itself, so looking at a masked map destroyed it for good (and
extract_solutions() destroyed the gradient fit).
---
 GridProperty.py |  2 +-
 Shallot.py      | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index c07972e..6d7d3c1 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -163,7 +163,7 @@ class GridProperty:
         data = self.data
 
         if masked and self.mask is not None:
-            data[self.mask] = np.nan
+            data = np.where(self.mask, np.nan, data)
         
         return data
 
diff --git a/Shallot.py b/Shallot.py
index d1a05a9..0949df5 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1031,7 +1031,7 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
-            disk_radius[combined_mask] = np.nan
+            disk_radius = np.where(combined_mask, np.nan, disk_radius)
         
         return disk_radius
 
@@ -1063,7 +1063,7 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
-            inclination[combined_mask] = np.nan
+            inclination = np.where(combined_mask, np.nan, inclination)
         
         return inclination
 
@@ -1094,7 +1094,7 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
-            tilt[combined_mask] = np.nan
+            tilt = np.where(combined_mask, np.nan, tilt)
 
         return tilt
 
@@ -1126,7 +1126,7 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
-            fx_map[combined_mask] = np.nan
+            fx_map = np.where(combined_mask, np.nan, fx_map)
 
         return fx_map
     
@@ -1158,7 +1158,7 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
-            fy_map[combined_mask] = np.nan
+            fy_map = np.where(combined_mask, np.nan, fy_map)
 
         return fy_map
 
@@ -1216,7 +1216,7 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
-            diagnostic_map[combined_mask] = np.nan
+            diagnostic_map = np.where(combined_mask, np.nan, diagnostic_map)
 
         return diagnostic_map
 
@@ -1796,7 +1796,7 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
-            gradient_fit[combined_mask] = np.nan
+            gradient_fit = np.where(combined_mask, np.nan, gradient_fit)
 
         return gradient_fit
 
-- 
2.43.0


From e3709464d80fcea2884f712ad4784c8dfa2eaad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 02/21] fix: closest grid point lookup compares with the actual
 dy of a grid point

The dy coordinates were reconstructed with a step of (max - min) / num
instead of (max - min) / (num - 1), so that the distance to every row but the
first was wrong and a worse grid point could be returned.
---
 Shallot.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 0949df5..df794ca 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1980,19 +1980,11 @@ class ShallotGrid:
         
         # get grid parameters
         dx = self.parameters.dx.flatten()
-        x_min, x_max = dx[0], dx[-1]
-        x_num = len(dx)
-        
         dy = self.parameters.dy.flatten()
-        y_min, y_max = dy[0], dy[-1]
-        y_num = len(dy)
-
         rf_array = self.parameters.rf_array
         
         # construct position grid
-        yy, xx = np.mgrid[:y_num, :x_num]
-        xx = xx / x_num * (x_max - x_min) + x_min
-        yy = yy / y_num * (y_max - y_min) + y_min
+        yy, _ = np.meshgrid(dy, dx, indexing="ij")
 
         # ensure selecting the right portion of the grid
         if impact_parameter < 0:
-- 
2.43.0


From 750760d3afdab6d4334f83d8b5847dd04c8f68ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 03/21] fix: saving a grid with kept diagnostics passes the
 directory on

GridDiagnostics.save() needs the directory, without it every save (also the
intermittent ones) of a grid built with keep_diagnostics=True failed.
---
 Shallot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index df794ca..ed70b37 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -209,7 +209,7 @@ class ShallotGrid:
                 gradient.save_gradient(directory)
 
         if self.diagnostics is not None:
-            self.diagnostics.save()
+            self.diagnostics.save(directory)
 
  
     def _load_grid_attributes(self, directory: str) -> None:
-- 
2.43.0


From d6566022251a503e2c38ad52ad7f3330e028321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 04/21] fix: saved diagnostics remember that they have been
 extended

The diagnostics of a reflected grid could be changed again after a save and
load, and looked up a different record for the same grid point.
---
 GridDiagnostics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/GridDiagnostics.py b/GridDiagnostics.py
index 5f34617..b89148e 100644
--- a/GridDiagnostics.py
+++ b/GridDiagnostics.py
@@ -191,6 +191,7 @@ class GridDiagnostics:
         np.save(f"{directory}/disk_radius_dict", self._disk_radius_dict)
 
         np.save(f"{directory}/max_yx", np.array([self._max_y, self._max_x]))
+        np.save(f"{directory}/extended", np.array([self._extended]))
 
 
     @classmethod
@@ -223,6 +224,11 @@ class GridDiagnostics:
             max_y, max_x = np.load(f"{directory}/max_yx.npy")
             grid_diagnostics._max_x = max_x
             grid_diagnostics._max_y = max_y
+
+            # not available for diagnostics saved by earlier versions
+            if os.path.exists(f"{directory}/extended.npy"):
+                extended = np.load(f"{directory}/extended.npy")
+                grid_diagnostics._extended = bool(extended[0])
         
         except Exception:
             raise LoadError("grid diagnostics", directory) 
-- 
2.43.0


From 68433c96960f5281f14529a3638d62e33300b189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 05/21] fix: a loaded grid has the gradients it was saved with

Gradient directories (gradient_0.1234) were never recognised by load(),
GridGradient.load_gradient() does not exist, gradients closer than 1e-4 were
saved over each other and the order depended on os.listdir().
---
 Shallot.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index ed70b37..d5f4d84 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -205,8 +205,11 @@ class ShallotGrid:
         self.fy_map.save(directory)
 
         if self.gradients is not None:
-            for gradient in self.gradients:
-                gradient.save_gradient(directory)
+            # numbered to preserve the order and to separate equal positions
+            os.mkdir(f"{directory}/gradients")
+            for index, gradient in enumerate(self.gradients):
+                os.mkdir(f"{directory}/gradients/{index}")
+                gradient.save_gradient(f"{directory}/gradients/{index}")
 
         if self.diagnostics is not None:
             self.diagnostics.save(directory)
@@ -242,20 +245,15 @@ class ShallotGrid:
         except LoadError:
             self.logger.debug("no diagnostics found")
         
-        try:
+        self.gradients = None
+        if os.path.exists(f"{directory}/gradients"):
             self.gradients = []
-            files = os.listdir(directory)
-            
-            for f in files:
-                if os.path.splitext(f)[1] == "":
-                    gradient = GridGradient.load_gradient(f"{directory}/{f}")
-                    self.gradients.append(gradient)
-            
-            if len(self.gradients) == 0:
-                self.gradients = None
-        
-        except LoadError:
-            self.logger.debug("no gradients found")
+            for index in range(len(os.listdir(f"{directory}/gradients"))):
+                subdirectory = f"{directory}/gradients/{index}"
+                (name,) = [f for f in os.listdir(subdirectory) 
+                    if f.startswith("gradient_")]
+                gradient = GridGradient.load(f"{subdirectory}/{name}")
+                self.gradients.append(gradient)
 
 
     @classmethod
-- 
2.43.0


From 82f7af6ec5ab5545cafab16bf0a97e1f504d2d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 06/21] fix: the eclipse parameters and the gradient fit
 survive save and load

After a reload no further gradients could be added, rescaling used undefined
parameters and extract_solutions() had no fit to work with.
---
 Shallot.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index d5f4d84..bd5ea29 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -214,6 +214,14 @@ class ShallotGrid:
         if self.diagnostics is not None:
             self.diagnostics.save(directory)
 
+        if self._limb_darkening is not None:
+            np.save(f"{directory}/eclipse_parameters", np.array([
+                self._eclipse_duration, self._transverse_velocity, 
+                self._limb_darkening]))
+
+        if self.gradient_fit is not None:
+            self.gradient_fit.save(directory)
+
  
     def _load_grid_attributes(self, directory: str) -> None:
         """
@@ -255,6 +263,15 @@ class ShallotGrid:
                 gradient = GridGradient.load(f"{subdirectory}/{name}")
                 self.gradients.append(gradient)
 
+        if os.path.exists(f"{directory}/eclipse_parameters.npy"):
+            (self._eclipse_duration, self._transverse_velocity,
+                self._limb_darkening) = np.load(
+                    f"{directory}/eclipse_parameters.npy")
+
+        name, unit = GridPropertyName.GRADIENT_FIT, GridPropertyUnit.NONE
+        if os.path.exists(f"{directory}/{name.name}_{unit.name}.npy"):
+            self.gradient_fit = GridProperty.load(directory, name, unit)
+
 
     @classmethod
     def load(cls, 
-- 
2.43.0


From ab02aaeaad944f8689ea59355561e6a2ed6939e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 07/21] fix: only a progress saving build touches its
 checkpoint, and keeps it to the end

Every build without intermittent saving, also the one load() does internally,
deleted the checkpoint in the working directory; so load(TEMP_SAVE_DIR) always
destroyed what it was asked to load. A resumed build cleared the checkpoint
before it had written a new one, and the checkpoint was removed before the
grid had been extended.
---
 Shallot.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index bd5ea29..69246fd 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -107,12 +107,20 @@ class ShallotGrid:
         self._determine_shear()
         
         # get grid
+        intermittent_saving = validate.boolean(intermittent_saving, 
+            "intermittent_saving")
+        if intermittent_saving:
+            self._create_temp_save_dir()
         self._build_grid(intermittent_saving)
 
         # diagnose then extend the grid (fill the quadrants in)
         self._extend_grid()
         self.diagnose_fxfy_resolution()
 
+        # the progress is needed until the grid is complete
+        if intermittent_saving:
+            self._delete_temp_save_dir()
+
  
     def __str__(self) -> str:
         """
@@ -302,13 +310,21 @@ class ShallotGrid:
         grid._determine_shear()
         grid._set_logger(logging_level)
         
-        if os.path.exists(f"{directory}/y_value.npy"):
+        resume = os.path.exists(f"{directory}/y_value.npy")
+        if resume:
             y_value = np.load(f"{directory}/y_value.npy")[0]
+            # do not clear the progress that is being resumed
+            if not (os.path.exists(TEMP_SAVE_DIR) and 
+                    os.path.samefile(directory, TEMP_SAVE_DIR)):
+                grid._create_temp_save_dir()
             grid._build_grid(intermittent_saving=True, start_y=y_value)
 
         grid._extend_grid()
         grid.diagnose_fxfy_resolution()
 
+        if resume:
+            grid._delete_temp_save_dir()
+
         return grid
 
  
@@ -967,9 +983,6 @@ class ShallotGrid:
         if start_y == 0:
             self._initialise_grid_properties()
 
-        if intermittent_saving:
-            self._create_temp_save_dir()
-
         # extract parameters
         num_y, num_x = self.parameters.slice_shape
 
@@ -1016,7 +1029,6 @@ class ShallotGrid:
                 self.save(TEMP_SAVE_DIR, y_value=y)
 
         self._set_grid_property_contrast_parameters()
-        self._delete_temp_save_dir()
 
  
     def get_disk_radius(self, 
-- 
2.43.0


From d017f099263dc0b8d2ae90d12c3d1818474879db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:17 +0000
Subject: [PATCH 08/21] fix: saving a grid or a checkpoint is all or nothing

A crash or a disk error during save() left a directory with part of the grid,
which load() accepted without its masks or gradients, or a checkpoint with
torn files that could not be resumed at all, losing the whole build. A failed
save could also not be repeated as its directory existed already. Write to
another folder and rename it, or each file of an existing checkpoint, and
rename a checkpoint before its removal.
---
 Shallot.py | 71 +++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 69246fd..b3f1de1 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -110,7 +110,7 @@ class ShallotGrid:
         intermittent_saving = validate.boolean(intermittent_saving, 
             "intermittent_saving")
         if intermittent_saving:
-            self._create_temp_save_dir()
+            self._delete_temp_save_dir()
         self._build_grid(intermittent_saving)
 
         # diagnose then extend the grid (fill the quadrants in)
@@ -192,12 +192,50 @@ class ShallotGrid:
         """
         directory = validate.string(directory, "directory")
         # allow saving into the existing temporary save folder
-        if directory == TEMP_SAVE_DIR:
-            if not os.path.exists(directory):
-                os.mkdir(directory)
-        else:
-            os.mkdir(directory)
+        update = (directory == TEMP_SAVE_DIR and y_value is not None and
+            os.path.exists(f"{directory}/y_value.npy"))
+        if os.path.exists(directory) and not update:
+            raise FileExistsError(f"{directory} already exists")
+
+        # write everything to another folder first, such that the directory
+        # never contains an incomplete grid
+        parent, name = os.path.split(os.path.normpath(directory))
+        partial_directory = os.path.join(parent, f".{name}.shallot_partial")
+        if os.path.exists(partial_directory):
+            shutil.rmtree(partial_directory)
+        os.mkdir(partial_directory)
+
+        try:
+            self._save_grid_attributes(partial_directory, y_value)
+            if not update:
+                os.rename(partial_directory, directory)
+                return
+            
+            # rows from y_value onwards are rebuilt when resuming, so it has
+            # to be updated before the properties
+            files = os.listdir(partial_directory)
+            files.sort(key=lambda f: f != "y_value.npy")
+            for f in files:
+                os.replace(f"{partial_directory}/{f}", f"{directory}/{f}")
+        finally:
+            shutil.rmtree(partial_directory, ignore_errors=True)
+
 
+    def _save_grid_attributes(self, 
+            directory: str, 
+            y_value: int = None
+        ) -> None:
+        """
+        This method writes all the files of the grid to an existing directory.
+        
+        Parameters
+        ----------
+        directory : str
+            File path for the saved information.
+        y_value : int
+            Index of the row that has just been built, when saving the
+            progress of a build [default = None].
+        """
         if y_value is not None:
             y_upper_bound = len(self.parameters.dy.flatten())
             y_value = validate.number(y_value, "y_value", check_integer=True,
@@ -316,7 +354,7 @@ class ShallotGrid:
             # do not clear the progress that is being resumed
             if not (os.path.exists(TEMP_SAVE_DIR) and 
                     os.path.samefile(directory, TEMP_SAVE_DIR)):
-                grid._create_temp_save_dir()
+                grid._delete_temp_save_dir()
             grid._build_grid(intermittent_saving=True, start_y=y_value)
 
         grid._extend_grid()
@@ -714,25 +752,18 @@ class ShallotGrid:
             GridPropertyUnit.NONE, np.copy(empty), self.parameters)
 
  
-    def _create_temp_save_dir(self) -> None:
-        """
-        This method is used to create the temporary save folder used for
-        intermittent saving during the building of the grid.
-        """
-        if os.path.exists(TEMP_SAVE_DIR):
-            shutil.rmtree(TEMP_SAVE_DIR)
-            self.logger.debug("cleared temp folder")
-        
-        os.mkdir(TEMP_SAVE_DIR)
-
- 
     def _delete_temp_save_dir(self) -> None:
         """
         This method is used to delete the temporary save folder used for
         intermittent saving during the building of the grid.
         """
         if os.path.exists(TEMP_SAVE_DIR):
-            shutil.rmtree(TEMP_SAVE_DIR)
+            # renaming first means that it is either complete or gone
+            trash = f"{TEMP_SAVE_DIR}.shallot_trash"
+            if os.path.exists(trash):
+                shutil.rmtree(trash)
+            os.rename(TEMP_SAVE_DIR, trash)
+            shutil.rmtree(trash, ignore_errors=True)
             self.logger.debug("deleted temp folder")
 
  
-- 
2.43.0


From 8d061eb3ddb53459fcbd7425990326d6291b483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 09/21] fix: a grid that can not be read is refused with a
 LoadError

Unreadable diagnostics were silently dropped, and a missing or torn num_fxfy
or y_value file raised whatever numpy came up with.
---
 Shallot.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index b3f1de1..00b9ab7 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -294,9 +294,10 @@ class ShallotGrid:
         self.fy_map = GridProperty.load(directory, 
             GridPropertyName.FY_MAP, GridPropertyUnit.NONE)
         
-        try:
+        if any(os.path.exists(f"{directory}/{f}.npy") for f in 
+                ("fy_dict", "disk_radius_dict", "max_yx")):
             self.diagnostics = GridDiagnostics.load(directory)
-        except LoadError:
+        else:
             self.logger.debug("no diagnostics found")
         
         self.gradients = None
@@ -343,14 +344,21 @@ class ShallotGrid:
         grid = cls(temp_parameters, 100, logging_level=logging.CRITICAL)
 
 
-        grid._load_grid_attributes(directory)
+        try:
+            grid._load_grid_attributes(directory)
+            resume = os.path.exists(f"{directory}/y_value.npy")
+            if resume:
+                y_value = np.load(f"{directory}/y_value.npy")[0]
+        except LoadError:
+            raise
+        except Exception:
+            raise LoadError("shallot grid", directory)
+
         grid._determine_circular_radius()
         grid._determine_shear()
         grid._set_logger(logging_level)
         
-        resume = os.path.exists(f"{directory}/y_value.npy")
         if resume:
-            y_value = np.load(f"{directory}/y_value.npy")[0]
             # do not clear the progress that is being resumed
             if not (os.path.exists(TEMP_SAVE_DIR) and 
                     os.path.samefile(directory, TEMP_SAVE_DIR)):
-- 
2.43.0


From b6c0ada520b6e184170eb733f56c1e68814309a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 10/21] fix: a checkpoint without its y_value is not loaded as
 a finished grid

The rows that had not been built yet were silently taken to be empty.
---
 Shallot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index 00b9ab7..1988f92 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -240,6 +240,7 @@ class ShallotGrid:
             y_upper_bound = len(self.parameters.dy.flatten())
             y_value = validate.number(y_value, "y_value", check_integer=True,
                 lower_bound=0, upper_bound=y_upper_bound)
+            np.save(f"{directory}/unfinished", np.array([True]))
             np.save(f"{directory}/y_value", np.array([y_value]))
 
         np.save(f"{directory}/num_fxfy", np.array([self.num_fxfy]))
@@ -346,7 +347,9 @@ class ShallotGrid:
 
         try:
             grid._load_grid_attributes(directory)
-            resume = os.path.exists(f"{directory}/y_value.npy")
+            # without its y_value a checkpoint must not pass as a finished grid
+            resume = (os.path.exists(f"{directory}/y_value.npy") or 
+                os.path.exists(f"{directory}/unfinished.npy"))
             if resume:
                 y_value = np.load(f"{directory}/y_value.npy")[0]
         except LoadError:
-- 
2.43.0


From 038eb541b6e64ec2fb0c4fb5785602803bd42e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 11/21] fix: saved properties and gradients load with exactly
 the mask they had

The mask files of an earlier save in the same place were kept, so a property
without a mask was loaded with the old one, and a gradient mask set with
set_mask() was replaced or dropped by load().
---
 GridProperty.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index 6d7d3c1..f5f8eac 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -301,9 +301,11 @@ class GridProperty:
         filename_data = f"{self.name.name}_{self.unit.name}"
         np.save(f"{directory}/{filename_data}", self.data)
         
+        filename_mask = f"{filename_data}_mask"
         if self.mask is not None:
-            filename_mask = f"{filename_data}_mask"
             np.save(f"{directory}/{filename_mask}", self.mask)
+        elif os.path.exists(f"{directory}/{filename_mask}.npy"):
+            os.remove(f"{directory}/{filename_mask}.npy")
 
         self.grid_parameters.save(directory)
 
@@ -544,6 +546,8 @@ class GridGradient(GridProperty):
                 self.orbital_scale, self.transmission_change, 
                 self.measured_error])
             np.save(f"{gradient_directory}/mask_values", mask_values)
+        elif os.path.exists(f"{gradient_directory}/mask_values.npy"):
+            os.remove(f"{gradient_directory}/mask_values.npy")
         
         self.grid_parameters.save(directory)
 
@@ -581,6 +585,10 @@ class GridGradient(GridProperty):
                 mask_values = np.load(filepath_mask_values)
                 grid_gradient.determine_mask(*mask_values)
 
+            filepath_mask = f"{directory}/{name.name}_{unit.name}_mask.npy"
+            if os.path.exists(filepath_mask):
+                grid_gradient.set_mask(np.load(filepath_mask))
+
         except Exception:
             type_string = f"{name.get_name()} [{unit.__str__()}]"
             raise LoadError(type_string, directory)
-- 
2.43.0


From 89ad8e4c81655d4b6a83367e65cd9a31ca6f5531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 12/21] fix: changes that fail or are interrupted are rolled
 back

A rejected add_gradients() left gradients without measured values behind (and
the grid unusable), a rescaling out of range left some gradients rescaled and
others not, set_eclipse_parameters() kept the values before the invalid one,
update_gradient_scaling() did not validate, and a rejected mask left its
values on the gradient.
---
 GridParameters.py |  2 ++
 GridProperty.py   |  3 +++
 Shallot.py        | 12 ++++++++++--
 rollback.py       | 45 +++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 60 insertions(+), 2 deletions(-)
 create mode 100644 rollback.py

diff --git a/GridParameters.py b/GridParameters.py
index 19dde72..d422b6e 100644
--- a/GridParameters.py
+++ b/GridParameters.py
@@ -5,6 +5,7 @@ import numpy as np
 
 import validate
 from errors import LoadError
+from rollback import all_or_nothing
 
 class GridParameters:
     """
@@ -214,6 +215,7 @@ class GridParameters:
         self.extendable: bool = dy[0] == 0 and dx[0] == 0
 
  
+    @all_or_nothing
     def extend_grid(self) -> None:
         """
         This method is used to reflect the grid parameters about the x and y
diff --git a/GridProperty.py b/GridProperty.py
index f5f8eac..70294ea 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -11,6 +11,7 @@ import matplotlib.pyplot as plt
 # beyonce modules
 import validate
 from errors import LoadError
+from rollback import all_or_nothing
 from GridParameters import GridParameters
 from GridPropertyName import GridPropertyName
 from GridPropertyUnit import GridPropertyUnit
@@ -168,6 +169,7 @@ class GridProperty:
         return data
 
  
+    @all_or_nothing
     def set_contrast_parameters(self, 
             vmin: float = None, 
             vmax: float = None,
@@ -472,6 +474,7 @@ class GridGradient(GridProperty):
         return scaled_gradient
 
  
+    @all_or_nothing
     def determine_mask(self, 
             measured_gradient: float,
             orbital_scale: float,
diff --git a/Shallot.py b/Shallot.py
index 1988f92..cb0aad2 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -17,6 +17,7 @@ from GridPropertyName import GridPropertyName
 from GridPropertyUnit import GridPropertyUnit
 from GridProperty import GridProperty, GridGradient
 from errors import LoadError
+from rollback import all_or_nothing
 
 TEMP_SAVE_DIR = "./.temp_shallot"
 
@@ -1528,6 +1529,7 @@ class ShallotGrid:
             self.logger.info("gradient fit has been cleared")
 
  
+    @all_or_nothing
     def add_gradients(self, 
             times: np.ndarray, 
             light_curve_gradients: np.ndarray,
@@ -1597,6 +1599,7 @@ class ShallotGrid:
         self._reset_gradient_fit()
 
  
+    @all_or_nothing
     def remove_gradients(self, indices: np.ndarray) -> None:
         """
         This method is used to remove gradients from the gradients list.
@@ -1621,6 +1624,7 @@ class ShallotGrid:
         self._reset_gradient_fit()
 
  
+    @all_or_nothing
     def set_eclipse_parameters(self,
             eclipse_duration: float,
             transverse_velocity: float,
@@ -1656,6 +1660,7 @@ class ShallotGrid:
             self._reset_gradient_fit()
 
  
+    @all_or_nothing
     def update_gradient_scaling(self, 
             transverse_velocity: float = None, 
             limb_darkening: float = None, 
@@ -1699,11 +1704,13 @@ class ShallotGrid:
         update_orbital_scale = False
         
         if transverse_velocity is not None:
-            self._transverse_velocity = transverse_velocity
+            self._transverse_velocity = validate.number(transverse_velocity, 
+                "transverse_velocity", lower_bound=0.)
             update_orbital_scale = True
         
         if limb_darkening is not None:
-            self._limb_darkening = limb_darkening
+            self._limb_darkening = validate.number(limb_darkening, 
+                "limb_darkening", lower_bound=0., upper_bound=1.)
             update_orbital_scale = True
 
         # update transmission change scale
@@ -1799,6 +1806,7 @@ class ShallotGrid:
         return positions, scaled_gradients, measured_errors, disk_gradients
 
  
+    @all_or_nothing
     def determine_gradient_fit(self, weighted: bool = True) -> None:
         """
         This method is used to determine the rms distance between the measured
diff --git a/rollback.py b/rollback.py
new file mode 100644
index 0000000..dd53957
--- /dev/null
+++ b/rollback.py
@@ -0,0 +1,45 @@
+"""
+This module is used to make sure that methods which change an object either 
+do so completely or not at all.
+"""
+
+import functools
+from typing import Callable
+
+def all_or_nothing(method: Callable) -> Callable:
+    """
+    This decorator restores the attributes of the object (and those of its 
+    gradients if it has a list of them) when the decorated method does not
+    finish, for example due to invalid input or a keyboard interrupt. It is 
+    assumed that the method replaces array attributes instead of editing them.
+
+    Parameters
+    ----------
+    method : Callable
+        The method to decorate.
+
+    Returns
+    -------
+    wrapper : Callable
+        The decorated method.
+    """
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        attributes = dict(vars(self))
+        gradients = attributes.get("gradients")
+        if gradients is not None:
+            attributes["gradients"] = list(gradients)
+            gradients = [(gradient, dict(vars(gradient))) 
+                for gradient in gradients]
+
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            vars(self).clear()
+            vars(self).update(attributes)
+            for gradient, gradient_attributes in gradients or []:
+                vars(gradient).clear()
+                vars(gradient).update(gradient_attributes)
+            raise
+
+    return wrapper
-- 
2.43.0


From 1e386d008269a9509d0dc6d40e9571e6e814123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 13/21] fix: removing a gradient that is listed twice removes
 it once

The second removal hit the gradient that had moved up to its place.
---
 Shallot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index cb0aad2..3b158f8 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1616,7 +1616,7 @@ class ShallotGrid:
 
         indices = validate.array(indices, "indices", num_dimensions=1, 
             lower_bound=0, upper_bound=len(self.gradients) - 1, dtype="int64")
-        sorted_indices = np.flip(np.sort(indices))
+        sorted_indices = np.flip(np.unique(indices))
         
         for index in sorted_indices:
             del self.gradients[index]
-- 
2.43.0


From cc67aabcf31d0b0c9d767f7f1ff0a70543725950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 14/21] fix: ring systems keep their own copy of an added ring

The geometry of the caller's ring was overwritten, so a ring added to two ring
systems had the geometry of the last one in both.
---
 RingSystem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RingSystem.py b/RingSystem.py
index 645cb8c..b57b468 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -1,4 +1,5 @@
 # generic modules
+import copy
 import logging
 import numpy as np
 import matplotlib.pyplot as plt
@@ -430,6 +431,8 @@ class RingSystem:
             self.logger.info(f"ring tilt overridden from {ring.tilt:.2f} to "
                 f"{self.tilt:.2f}")
 
+        # the ring object may be in use elsewhere
+        ring = copy.copy(ring)
         ring.inclination = self.inclination
         ring.tilt = self.tilt
         
-- 
2.43.0


From 68ad2d9925e1fcdd9cfb12c52ad758000a7cfd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 15/21] fix: loggers are unique and leave the random numbers
 alone

The logger name was drawn from the global numpy generator: creating objects
changed the user's random numbers, and after reseeding two objects shared a
logger, which wrote every message twice and at the wrong level.
---
 RingSystem.py | 3 ++-
 Shallot.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/RingSystem.py b/RingSystem.py
index b57b468..2fbbe13 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -1,5 +1,6 @@
 # generic modules
 import copy
+import uuid
 import logging
 import numpy as np
 import matplotlib.pyplot as plt
@@ -167,7 +168,7 @@ class RingSystem:
             check_integer=True, lower_bound=10, upper_bound=50)
 
         # define logger
-        logger = logging.getLogger(str(np.random.normal(0, 1)))
+        logger = logging.getLogger(f"{type(self).__name__}-{uuid.uuid4()}")
         logger.setLevel(logging_level)
 
         # define formatter
diff --git a/Shallot.py b/Shallot.py
index 3b158f8..534e71c 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -5,6 +5,7 @@ from enum import Enum
 # generic modules
 import os
 import shutil
+import uuid
 import logging
 import numpy as np
 from tqdm import tqdm
@@ -412,7 +413,7 @@ class ShallotGrid:
             check_integer=True, lower_bound=10, upper_bound=50)
 
         # define logger
-        logger = logging.getLogger(str(np.random.normal(0, 1)))
+        logger = logging.getLogger(f"{type(self).__name__}-{uuid.uuid4()}")
         logger.setLevel(logging_level)
 
         # define formatter
-- 
2.43.0


From e0d305e663a17498dd7d05404d86aad4a93bf833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 16/21] fix: building a grid does not change the grid
 parameters passed in

The grid extended the caller's object in place, so a second grid built from it
was a different, non-extendable one.
---
 Shallot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index 534e71c..cfe29fb 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -4,6 +4,7 @@ from enum import Enum
 
 # generic modules
 import os
+import copy
 import shutil
 import uuid
 import logging
@@ -98,7 +99,8 @@ class ShallotGrid:
         # set user values
         parameters = validate.class_object(parameters, "parameters", 
             GridParameters, "GridParameters")
-        self.parameters = parameters
+        # extending the grid must not change the object of the user
+        self.parameters = copy.deepcopy(parameters)
         self.num_fxfy = validate.number(num_fxfy, "num_fxfy",
             check_integer=True, lower_bound=1)
 
-- 
2.43.0


From e15124fbbcd3068e697d86854cdd06a6ff551944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 17/21] fix: the cube viewer only shows the coordinates of the
 current slice

Markers of earlier slices stayed visible, or were plotted again on every
redraw, and removing them failed with an AttributeError as Axes.lines can not
be set.
---
 GridProperty.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 70294ea..4178e4f 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -658,6 +658,7 @@ class GridPropertyViewer:
                     raise ValueError("all input coordinates must be tuples "
                         "with three values")
         self.coordinates = coordinates
+        self.markers = []
         self.tolerance = np.abs(self.slice_values[1] - self.slice_values[0]) / 3
 
         self.slice_name = ["$y$", "$x$", "$R_f$"][axis]
@@ -852,7 +853,9 @@ class GridPropertyViewer:
         if self.coordinates is None:
             return
 
-        plotted = False
+        # remove the coordinates of the previous slice
+        while self.markers:
+            self.markers.pop().remove()
 
         for coordinate in self.coordinates:
             distance = np.abs(self.slice_values[self.index] - 
@@ -860,8 +863,4 @@ class GridPropertyViewer:
 
             if self.tolerance > distance:
                 y, x = np.delete(coordinate, self.axis)
-                self.ax.plot(x, y, "ro")
-                plotted = True
-        
-        if not plotted:
-            self.ax.lines = []
\ No newline at end of file
+                self.markers += self.ax.plot(x, y, "ro")
-- 
2.43.0


From d2f4f90dad4f8733cbbf4e59388df3b8dee66057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 18/21] fix: a loaded grid keeps its diagnostic mask and tilt
 colours

load() recomputed the diagnostic map without the mask that had been set on it,
and showed the tilt with the default instead of the cyclic colour map.
---
 Shallot.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index cfe29fb..ea5efe7 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -273,6 +273,10 @@ class ShallotGrid:
         if self.gradient_fit is not None:
             self.gradient_fit.save(directory)
 
+        # is only valid when the grid is complete
+        if y_value is None and self.diagnostic_map is not None:
+            self.diagnostic_map.save(directory)
+
  
     def _load_grid_attributes(self, directory: str) -> None:
         """
@@ -351,6 +355,12 @@ class ShallotGrid:
 
         try:
             grid._load_grid_attributes(directory)
+            diagnostic_map = None
+            name = GridPropertyName.DIAGNOSTIC_MAP
+            unit = GridPropertyUnit.ECLIPSE_DURATION
+            if os.path.exists(f"{directory}/{name.name}_{unit.name}.npy"):
+                diagnostic_map = GridProperty.load(directory, name, unit)
+
             # without its y_value a checkpoint must not pass as a finished grid
             resume = (os.path.exists(f"{directory}/y_value.npy") or 
                 os.path.exists(f"{directory}/unfinished.npy"))
@@ -374,6 +384,9 @@ class ShallotGrid:
 
         grid._extend_grid()
         grid.diagnose_fxfy_resolution()
+        if diagnostic_map is not None:
+            grid.diagnostic_map = diagnostic_map
+        grid._set_grid_property_contrast_parameters()
 
         if resume:
             grid._delete_temp_save_dir()
-- 
2.43.0


From 36a4ec2a5326de1ea58b41065392850ae6ba0614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 19/21] fix: merging rings with a tolerance of zero, or no
 rings at all

The first ring was compared with its own inner radius, which is not within a
tolerance of zero and then gave a ring without any width (ValueError).
---
 RingSystem.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/RingSystem.py b/RingSystem.py
index 2fbbe13..3213223 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -574,16 +574,21 @@ class RingSystem:
             can vary from the outer radius of previous ring. This value is
             necessary due to e.g. floating point representations.
         """
+        num_rings = self.get_num_rings()
+        if num_rings == 0:
+            self.logger.info("no rings found")
+            return
+
         # set up new initial conditions and rings array
         merged_rings = np.array([]).astype(Ring)
 
         inner_radius = self.rings[0].inner_radius
-        outer_radius = self.rings[0].inner_radius
+        outer_radius = self.rings[0].outer_radius
         transmission = self.rings[0].transmission
 
         debug_before = self._print_changes("merge_rings()", before=True)
 
-        for ring_index, ring in enumerate(self.rings):
+        for ring in self.rings[1:]:
             adjacent = np.abs(ring.inner_radius - outer_radius) < tolerance
             
             if adjacent and ring.transmission == transmission:
@@ -609,7 +614,7 @@ class RingSystem:
         
         debug_after = self._print_changes("merge_rings()", before=False)
         self.logger.debug(debug_before + debug_after)
-        self.logger.info(f"merged rings from {ring_index+1} to {len(self.rings)}")
+        self.logger.info(f"merged rings from {num_rings} to {len(self.rings)}")
 
     def _get_patches(self, 
             x_shift: float = 0, 
-- 
2.43.0


From 3fa5c5ff64539ec22425629d9cc8a2c674180414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 20/21] fix: a rejected change that is interrupted leaves no
 trace either

---
 rollback.py | 48 +++++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/rollback.py b/rollback.py
index dd53957..1f7bd32 100644
--- a/rollback.py
+++ b/rollback.py
@@ -2,16 +2,19 @@
 This module is used to make sure that methods which change an object either 
 do so completely or not at all.
 """
-
+import copy
 import functools
+import itertools
 from typing import Callable
 
+
 def all_or_nothing(method: Callable) -> Callable:
     """
-    This decorator restores the attributes of the object (and those of its 
-    gradients if it has a list of them) when the decorated method does not
-    finish, for example due to invalid input or a keyboard interrupt. It is 
-    assumed that the method replaces array attributes instead of editing them.
+    This decorator runs the method on a draft of the object (and on drafts of 
+    its gradients if it has a list of them), which only replaces the object 
+    when the method finishes. Nothing changes when it does not, for example 
+    due to invalid input or a keyboard interrupt. It is assumed that the method 
+    replaces array attributes instead of editing them.
 
     Parameters
     ----------
@@ -25,21 +28,24 @@ def all_or_nothing(method: Callable) -> Callable:
     """
     @functools.wraps(method)
     def wrapper(self, *args, **kwargs):
-        attributes = dict(vars(self))
-        gradients = attributes.get("gradients")
-        if gradients is not None:
-            attributes["gradients"] = list(gradients)
-            gradients = [(gradient, dict(vars(gradient))) 
-                for gradient in gradients]
-
-        try:
-            return method(self, *args, **kwargs)
-        except BaseException:
-            vars(self).clear()
-            vars(self).update(attributes)
-            for gradient, gradient_attributes in gradients or []:
-                vars(gradient).clear()
-                vars(gradient).update(gradient_attributes)
-            raise
+        objects = [self] + list(getattr(self, "gradients", None) or [])
+        drafts = [copy.copy(obj) for obj in objects]
+        draft = drafts[0]
+        if getattr(self, "gradients", None) is not None:
+            draft.gradients = drafts[1:]
+
+        result = method(draft, *args, **kwargs)
+
+        # the gradients that are kept remain the same objects
+        kept = {id(d): obj for d, obj in zip(drafts, objects)}
+        if getattr(draft, "gradients", None) is not None:
+            draft.gradients = [kept.get(id(gradient), gradient)
+                for gradient in draft.gradients]
+
+        # one statement without python code, so it is not interrupted half-way
+        any(map(setattr, objects, itertools.repeat("__dict__"), 
+            [vars(d) for d in drafts]))
+
+        return result
 
     return wrapper
-- 
2.43.0


From fa59b1d7a21e03d72283b24cc307298009c3fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 21/21] fix: diagnostics whose save is cut short never load as
 not extended

The extended flag was written last and is optional when loading.
---
 GridDiagnostics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GridDiagnostics.py b/GridDiagnostics.py
index b89148e..439732b 100644
--- a/GridDiagnostics.py
+++ b/GridDiagnostics.py
@@ -187,11 +187,12 @@ class GridDiagnostics:
         if not os.path.exists(directory):
             os.mkdir(directory)
 
+        # first as it is not required to load the diagnostics
+        np.save(f"{directory}/extended", np.array([self._extended]))
         np.save(f"{directory}/fy_dict", self._fy_dict)
         np.save(f"{directory}/disk_radius_dict", self._disk_radius_dict)
 
         np.save(f"{directory}/max_yx", np.array([self._max_y, self._max_x]))
-        np.save(f"{directory}/extended", np.array([self._extended]))
 
 
     @classmethod
-- 
2.43.0

