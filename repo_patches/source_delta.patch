From bbf1ac62de04af17efcc06ec21be5f3a1e2fb2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 01/78] fix: do not leave partial profiles of an unreadable
 file in concatenated output

---
 cloudnetpy/concat_lib.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index a047da6..6111fc4 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -234,6 +234,7 @@ class _Concat:
             ind0 = len(self.concatenated_file.variables[self.concat_dimension])
             ind1 = ind0 + len(file.variables[self.concat_dimension])
             n_points = ind1 - ind0
+            arrays = {}
 
             for key in self.concatenated_file.variables:
                 if key not in file.variables or key == self.interp_dim:
@@ -254,6 +255,11 @@ class _Concat:
                     fill_value = self.first_file.variables[key].get_fill_value()
                     array[:, out_of_bounds] = fill_value
 
+                arrays[key] = array
+
+            # Write only after everything has been read: an unreadable file
+            # must not leave partial profiles in the output
+            for key, array in arrays.items():
                 self.concatenated_file.variables[key][ind0:ind1, ...] = array
 
     def _init_output_file(self, output_file: str | PathLike) -> netCDF4.Dataset:
-- 
2.43.0


From 7b50f47a2ecc9e1482ff004c8d328c5861e55c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 02/78] fix: append overlapping file without a gap in update_nc

---
 cloudnetpy/concat_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 6111fc4..6e11077 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -315,7 +315,7 @@ def _update_fields(
     valid_ind: npt.NDArray,
 ) -> None:
     ind0 = len(nc_old.variables["time"])
-    idx = [ind0 + x for x in valid_ind]
+    idx = [ind0 + n for n in range(len(valid_ind))]
     concat_dimension = nc_old.variables["time"].dimensions[0]
     for field in nc_new.variables:
         if field not in nc_old.variables:
-- 
2.43.0


From c0bebf649702c5ca72436f9c157384261915efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:19 +0000
Subject: [PATCH 03/78] fix: keep existing file unchanged when the file to be
 appended is unreadable

---
 cloudnetpy/concat_lib.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 6e11077..ff54f92 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -317,6 +317,9 @@ def _update_fields(
     ind0 = len(nc_old.variables["time"])
     idx = [ind0 + n for n in range(len(valid_ind))]
     concat_dimension = nc_old.variables["time"].dimensions[0]
+    # Read everything before writing so that an unreadable new file does not
+    # leave the existing file partially updated.
+    new_data: dict = {}
     for field in nc_new.variables:
         if field not in nc_old.variables:
             continue
@@ -324,11 +327,15 @@ def _update_fields(
         if concat_dimension in dimensions:
             concat_ind = dimensions.index(concat_dimension)
             if len(dimensions) == 1:
-                nc_old.variables[field][idx] = nc_new.variables[field][valid_ind]
+                new_data[field] = (idx, nc_new.variables[field][valid_ind])
             elif len(dimensions) == 2 and concat_ind == 0:
-                nc_old.variables[field][idx, :] = nc_new.variables[field][valid_ind, :]
+                array = nc_new.variables[field][valid_ind, :]
+                new_data[field] = ((idx, slice(None)), array)
             elif len(dimensions) == 2 and concat_ind == 1:
-                nc_old.variables[field][:, idx] = nc_new.variables[field][:, valid_ind]
+                array = nc_new.variables[field][:, valid_ind]
+                new_data[field] = ((slice(None), idx), array)
+    for field, (key, array) in new_data.items():
+        nc_old.variables[field][key] = array
 
 
 def concatenate_text_files(filenames: list, output_filename: str | PathLike) -> None:
-- 
2.43.0


From 2ee7c551bae2e635813b579e308d272ec9bc7b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:19 +0000
Subject: [PATCH 04/78] fix: wrap longitudes above 180 degrees in site
 geolocation

---
 cloudnetpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index c1a5dc6..8d58305 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -1163,7 +1163,7 @@ def add_site_geolocation(
     if "latitude" in tmp_data and "longitude" in tmp_data:
         lat = np.atleast_1d(tmp_data["latitude"])
         lon = np.atleast_1d(tmp_data["longitude"])
-        lon[lon > 180] - 360
+        lon = ma.where(lon > 180, lon - 360, lon)
         if _are_stationary(lat, lon):
             tmp_data["latitude"] = float(ma.mean(lat))
             tmp_data["longitude"] = float(ma.mean(lon))
-- 
2.43.0


From 36a3242b830da5f64087a2b781ff9d371d960c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:19 +0000
Subject: [PATCH 05/78] fix: keep sign of coordinates given as global
 attributes

---
 cloudnetpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index 8d58305..0daf4c1 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -1192,7 +1192,7 @@ def _parse_global_attribute_numeral(dataset: netCDF4.Dataset, key: str) -> float
     if attr == "Unknown":
         return None
     for char in attr:
-        if char.isdigit() or char == ".":
+        if char.isdigit() or char == "." or (char == "-" and not new_str):
             new_str += char
     return float(new_str)
 
-- 
2.43.0


From 25ddd8433e44be92c614e89bbdcc8c32e2a31164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:37 +0000
Subject: [PATCH 06/78] fix: cumulative amount with several counter resets or
 missing first value

---
 cloudnetpy/instruments/cloudnet_instrument.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/cloudnetpy/instruments/cloudnet_instrument.py b/cloudnetpy/instruments/cloudnet_instrument.py
index 40cabc2..586df17 100644
--- a/cloudnetpy/instruments/cloudnet_instrument.py
+++ b/cloudnetpy/instruments/cloudnet_instrument.py
@@ -118,13 +118,11 @@ class CSVFile(CloudnetInstrument):
             return
         amount = self.data[key][:]
         offset = 0
-        last_valid = 0
-        for i in range(1, len(amount)):
-            if amount[i] is ma.masked:
-                continue
+        valid_ind = np.where(~ma.getmaskarray(amount))[0]
+        for last_valid, i in zip(valid_ind[:-1], valid_ind[1:], strict=True):
             if amount[i] + offset < amount[last_valid]:
-                offset += amount[last_valid]
+                offset = amount[last_valid]
             amount[i] += offset
-            last_valid = i
-        amount -= amount[0]
+        if len(valid_ind) > 0:
+            amount -= amount[valid_ind[0]]
         self.data[key].data = amount
-- 
2.43.0


From f72c760c2eaf21eeaa656f5ed35548c40e3a0b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:37 +0000
Subject: [PATCH 07/78] fix: sort rain_e_h3 data before normalizing cumulative
 amount

---
 cloudnetpy/instruments/rain_e_h3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/rain_e_h3.py b/cloudnetpy/instruments/rain_e_h3.py
index a2339d4..acdd0e6 100644
--- a/cloudnetpy/instruments/rain_e_h3.py
+++ b/cloudnetpy/instruments/rain_e_h3.py
@@ -43,10 +43,10 @@ def rain_e_h32nc(
     rain.add_data()
     rain.add_date()
     rain.convert_units()
-    rain.normalize_cumulative_amount("rainfall_amount")
-    rain.add_site_geolocation()
     rain.sort_timestamps()
     rain.remove_duplicate_timestamps()
+    rain.normalize_cumulative_amount("rainfall_amount")
+    rain.add_site_geolocation()
     attributes = output.add_time_attribute({}, rain.date)
     output.update_attributes(rain.data, attributes)
     output.save_level1b(rain, output_file, uuid)
-- 
2.43.0


From b7a3531cda030daf0f3c792b646e6b7665e4229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:37 +0000
Subject: [PATCH 08/78] fix: screen all fd12p variables by date

---
 cloudnetpy/instruments/fd12p.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/instruments/fd12p.py b/cloudnetpy/instruments/fd12p.py
index bce43f0..dd888a6 100644
--- a/cloudnetpy/instruments/fd12p.py
+++ b/cloudnetpy/instruments/fd12p.py
@@ -114,9 +114,13 @@ class FD12P(CSVFile):
             self._data[key] = ma.array(values, mask=mask)
         self._data["snowfall_amount"] = self._data["snowfall_amount"].astype(np.float32)
         if expected_date:
-            self._data["time"] = [
-                d for d in self._data["time"] if d.date() == expected_date
-            ]
+            is_valid = [d.date() == expected_date for d in self._data["time"]]
+            for key, values in self._data.items():
+                self._data[key] = (
+                    values[np.array(is_valid, dtype=np.bool_)]
+                    if isinstance(values, np.ndarray)
+                    else [x for x, valid in zip(values, is_valid, strict=True) if valid]
+                )
         if not self._data["time"]:
             raise ValidTimeStampError
 
-- 
2.43.0


From 0c372099a01a12de21e45024c17be1558fbb783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 09/78] fix: do not screen range axis when there are as many
 gates as profiles

---
 cloudnetpy/instruments/cloudnet_instrument.py | 4 +++-
 cloudnetpy/instruments/vaisala.py             | 2 ++
 cloudnetpy/utils.py                           | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/cloudnet_instrument.py b/cloudnetpy/instruments/cloudnet_instrument.py
index 586df17..c7eb95d 100644
--- a/cloudnetpy/instruments/cloudnet_instrument.py
+++ b/cloudnetpy/instruments/cloudnet_instrument.py
@@ -67,7 +67,9 @@ class CloudnetInstrument:
         ):
             msg = "All timestamps screened"
             raise ValidTimeStampError(msg)
-        for cloudnet_array in self.data.values():
+        for key, cloudnet_array in self.data.items():
+            if key in ("range", "height"):
+                continue
             array = cloudnet_array.data
             if not utils.isscalar(array) and array.shape[0] == n_time:
                 match array.ndim:
diff --git a/cloudnetpy/instruments/vaisala.py b/cloudnetpy/instruments/vaisala.py
index 2c1f4bb..d9549b1 100644
--- a/cloudnetpy/instruments/vaisala.py
+++ b/cloudnetpy/instruments/vaisala.py
@@ -73,6 +73,8 @@ class VaisalaCeilo(Ceilometer):
             msg = "All timestamps screened"
             raise ValidTimeStampError(msg)
         for key, array in self.data.items():
+            if key in ("range", "height"):
+                continue
             if hasattr(array, "shape") and array.shape[:1] == (n_time,):
                 self.data[key] = self.data[key][valid_indices]
 
diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index 0daf4c1..30aea84 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -968,6 +968,8 @@ def screen_by_time(
     valid_ind = find_valid_time_indices(data["time"], epoch, expected_date)
     n_time = len(data["time"])
     for key, array in data.items():
+        if key in ("range", "height"):
+            continue
         if isinstance(array, list) and len(array) > 1:
             raise ValueError
         if (
-- 
2.43.0


From c38ebe7a3919d49f3b3d255b97b2b5bc71d42f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 10/78] fix: seconds2hours: midnight is hour 24 only for the
 latest time stamp

---
 cloudnetpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index 30aea84..f3639d1 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -44,7 +44,7 @@ def seconds2hours(time_in_seconds: npt.NDArray) -> npt.NDArray:
     """
     seconds_since_midnight = np.mod(time_in_seconds, SEC_IN_DAY)
     fraction_hour = seconds_since_midnight / SEC_IN_HOUR
-    if fraction_hour[-1] == 0:
+    if fraction_hour[-1] == 0 and time_in_seconds[-1] == np.max(time_in_seconds):
         fraction_hour[-1] = 24
     return fraction_hour
 
-- 
2.43.0


From 6a873ab2853c672e49566c15cb3e5effa2cf33b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 11/78] fix: profile at midnight of the requested date is at
 hour 0, not 24

---
 cloudnetpy/instruments/ceilometer.py | 5 ++++-
 cloudnetpy/instruments/hatpro.py     | 3 +++
 cloudnetpy/instruments/mira.py       | 1 +
 cloudnetpy/instruments/mrr.py        | 1 +
 4 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/ceilometer.py b/cloudnetpy/instruments/ceilometer.py
index 60de970..bcdebe4 100644
--- a/cloudnetpy/instruments/ceilometer.py
+++ b/cloudnetpy/instruments/ceilometer.py
@@ -102,7 +102,10 @@ class Ceilometer:
         if self.expected_date is not None:
             self.data = utils.screen_by_time(self.data, epoch, self.expected_date)
         self.date = utils.seconds2date(self.data["time"][0], epoch=epoch).date()
-        self.data["time"] = utils.seconds2hours(self.data["time"])
+        time = utils.seconds2hours(self.data["time"])
+        if self.expected_date is not None:
+            time[time == 24] = 0  # midnight of the expected date
+        self.data["time"] = time
 
     def data_to_cloudnet_arrays(self, time_dtype: str = "f4") -> None:
         for key, array in self.data.items():
diff --git a/cloudnetpy/instruments/hatpro.py b/cloudnetpy/instruments/hatpro.py
index 3bf21c8..f78ac2f 100644
--- a/cloudnetpy/instruments/hatpro.py
+++ b/cloudnetpy/instruments/hatpro.py
@@ -213,6 +213,9 @@ def hatpro2nc(
     hatpro = rpg.Hatpro(one_day_of_data, site_meta, ITYPE_MAP[instrument_type])
     hatpro.add_site_geolocation()
     hatpro.convert_time_to_fraction_hour("float64")
+    if date is not None:
+        time = hatpro.data["time"].data
+        time[time == 24] = 0  # midnight of the expected date
     hatpro.sort_timestamps()
     hatpro.remove_duplicate_timestamps()
     attributes = output.add_time_attribute({}, hatpro.date)
diff --git a/cloudnetpy/instruments/mira.py b/cloudnetpy/instruments/mira.py
index e99e186..6d7075a 100644
--- a/cloudnetpy/instruments/mira.py
+++ b/cloudnetpy/instruments/mira.py
@@ -180,6 +180,7 @@ class Mira(NcRadar):
             if date == expected_date:
                 valid_indices.append(ind)
         self.screen_time_indices(valid_indices)
+        self.time[self.time == 24] = 0  # midnight of the expected date
 
     def _init_mira_date(self) -> datetime.date:
         time_stamps = self.getvar("time")
diff --git a/cloudnetpy/instruments/mrr.py b/cloudnetpy/instruments/mrr.py
index 6c9894d..daeab83 100644
--- a/cloudnetpy/instruments/mrr.py
+++ b/cloudnetpy/instruments/mrr.py
@@ -161,6 +161,7 @@ class MrrPro(NcRadar):
             if date == expected_date:
                 valid_indices.append(ind)
         self.screen_time_indices(valid_indices)
+        self.time[self.time == 24] = 0  # midnight of the expected date
 
     def fix_range(self) -> None:
         # It seems like the "range" variable in MRR-PRO raw files is actually
-- 
2.43.0


From c38b96cd81d812fa10774e241a27759363208a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 12/78] fix: mrr: screen zenith angle together with the other
 variables

---
 cloudnetpy/instruments/mrr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/mrr.py b/cloudnetpy/instruments/mrr.py
index daeab83..16e09a9 100644
--- a/cloudnetpy/instruments/mrr.py
+++ b/cloudnetpy/instruments/mrr.py
@@ -101,12 +101,12 @@ def mrr2nc(
             mrr.init_data(keymap)
             mrr.fix_units()
             mrr.date = mrr.init_date()
+            mrr.add_zenith_angle()
             if date:
                 mrr.screen_by_date(date)
             mrr.add_time_and_range()
             mrr.fix_range()
             mrr.add_site_geolocation()
-            mrr.add_zenith_angle()
             mrr.add_radar_specific_variables()
             mrr.add_height()
             mrr.sort_timestamps()
-- 
2.43.0


From 0a3760546c99430b28334f8666a7d8cd87a4a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 13/78] fix: remove duplicate time stamps of MRR-PRO and
 Radiometrics

---
 cloudnetpy/instruments/mrr.py          | 1 +
 cloudnetpy/instruments/radiometrics.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/mrr.py b/cloudnetpy/instruments/mrr.py
index 16e09a9..1ebf86e 100644
--- a/cloudnetpy/instruments/mrr.py
+++ b/cloudnetpy/instruments/mrr.py
@@ -110,6 +110,7 @@ def mrr2nc(
             mrr.add_radar_specific_variables()
             mrr.add_height()
             mrr.sort_timestamps()
+            mrr.remove_duplicate_timestamps()
         attributes = output.add_time_attribute(ATTRIBUTES, mrr.date)
         output.update_attributes(mrr.data, attributes)
         output.save_level1b(mrr, output_file, uuid)
diff --git a/cloudnetpy/instruments/radiometrics.py b/cloudnetpy/instruments/radiometrics.py
index ab1156b..c6df7f6 100644
--- a/cloudnetpy/instruments/radiometrics.py
+++ b/cloudnetpy/instruments/radiometrics.py
@@ -361,7 +361,7 @@ class RadiometricsCombined:
             self.data[key] = self.data[key][valid_mask]
 
     def sort_timestamps(self) -> None:
-        ind = np.argsort(self.data["time"])
+        _, ind = np.unique(self.data["time"], return_index=True)
         for key in self.data:
             if key in ("range", "height"):
                 continue
-- 
2.43.0


From 188c9c6ea7a5b47de7d44360c60f39e388ce00ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 14/78] fix: pollyxt: do not screen range axis by completely
 masked profiles

---
 cloudnetpy/instruments/pollyxt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/instruments/pollyxt.py b/cloudnetpy/instruments/pollyxt.py
index 51247e5..cba7681 100644
--- a/cloudnetpy/instruments/pollyxt.py
+++ b/cloudnetpy/instruments/pollyxt.py
@@ -184,6 +184,8 @@ class PollyXt(Ceilometer):
     def screen_completely_masked_profiles(self) -> None:
         valid_ind = ~np.all(np.ma.getmaskarray(self.data["beta_raw"]), axis=1)
         for key, item in self.data.items():
+            if key in ("range", "height"):
+                continue
             if isinstance(item, np.ndarray) and item.shape[0] == len(valid_ind):
                 self.data[key] = item[valid_ind]
 
-- 
2.43.0


From c7080247ff88f57a910811f49e0dbdd3614975e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 15/78] fix: galileo: do not screen time axis by negative
 altitudes

---
 cloudnetpy/instruments/galileo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/galileo.py b/cloudnetpy/instruments/galileo.py
index a91323b..f7d89f6 100644
--- a/cloudnetpy/instruments/galileo.py
+++ b/cloudnetpy/instruments/galileo.py
@@ -144,8 +144,8 @@ class Galileo(ChilboltonRadar):
             raise ValueError(msg)
         if valid_idx.size == range_var.shape[0]:
             return
-        for arr in self.data.values():
-            if utils.isscalar(arr.data):
+        for key, arr in self.data.items():
+            if utils.isscalar(arr.data) or (arr[:].ndim == 1 and key != "range"):
                 continue
             if arr[:].shape[-1] == range_var.shape[0]:
                 arr.data = arr[..., valid_idx]
-- 
2.43.0


From e3c7594294df9df9c7f0bbd3d1f5a89715e4231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 16/78] fix: do not screen disdrometer size and velocity
 classes by time

---
 cloudnetpy/instruments/cloudnet_instrument.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/instruments/cloudnet_instrument.py b/cloudnetpy/instruments/cloudnet_instrument.py
index c7eb95d..5108017 100644
--- a/cloudnetpy/instruments/cloudnet_instrument.py
+++ b/cloudnetpy/instruments/cloudnet_instrument.py
@@ -70,6 +70,9 @@ class CloudnetInstrument:
         for key, cloudnet_array in self.data.items():
             if key in ("range", "height"):
                 continue
+            dimensions = cloudnet_array.dimensions
+            if key != "time" and dimensions and "time" not in dimensions:
+                continue
             array = cloudnet_array.data
             if not utils.isscalar(array) and array.shape[0] == n_time:
                 match array.ndim:
-- 
2.43.0


From 2b883ef8102c4ac23b299c780475364687daaafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:59 +0000
Subject: [PATCH 17/78] fix: hatpro: accept files with a single profile

---
 cloudnetpy/instruments/rpg_reader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/rpg_reader.py b/cloudnetpy/instruments/rpg_reader.py
index 6594155..574a0d2 100644
--- a/cloudnetpy/instruments/rpg_reader.py
+++ b/cloudnetpy/instruments/rpg_reader.py
@@ -226,7 +226,7 @@ class HatproBin:
 
     def _add_zenith_angle(self) -> None:
         ele, _azi = _decode_angles(self.data["_instrument_angles"], self.version)
-        self.data = rfn.append_fields(self.data, "zenith_angle", 90 - ele)
+        self.data = _append_field(self.data, "zenith_angle", 90 - ele)
 
 
 class HatproBinLwp(HatproBin):
@@ -319,7 +319,7 @@ class HatproBinCombined:
         elif len(files) == 2:
             f1, f2 = files
             arr = rfn.join_by("time", f1.data, f2.data, "outer")
-            arr = rfn.append_fields(
+            arr = _append_field(
                 arr,
                 "zenith_angle",
                 _combine_values(arr["zenith_angle1"], arr["zenith_angle2"]),
@@ -340,6 +340,17 @@ class HatproBinCombined:
         self.data = {field: arr[field] for field in arr.dtype.fields}
 
 
+def _append_field(
+    arr: ma.MaskedArray, name: str, values: ma.MaskedArray
+) -> ma.MaskedArray:
+    # rfn.append_fields doesn't work if there's only one element
+    out = ma.empty(arr.shape, dtype=[*arr.dtype.descr, (name, values.dtype)])
+    for field in arr.dtype.names:
+        out[field] = arr[field]
+    out[name] = values
+    return out
+
+
 def _combine_values(arr1: ma.MaskedArray, arr2: ma.MaskedArray) -> ma.MaskedArray:
     if not ma.allequal(arr1, arr2):
         msg = "Inconsistent values"
-- 
2.43.0


From fed65051c0f2a4aaaef458c9a6228eb92c005637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:42 +0000
Subject: [PATCH 18/78] fix: rd80: find date when it is not given

---
 cloudnetpy/instruments/disdrometer/rd80.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/disdrometer/rd80.py b/cloudnetpy/instruments/disdrometer/rd80.py
index a5dd5ce..ab84880 100644
--- a/cloudnetpy/instruments/disdrometer/rd80.py
+++ b/cloudnetpy/instruments/disdrometer/rd80.py
@@ -92,7 +92,7 @@ class Rd80(CloudnetInstrument):
 
     def _screen_time(self, expected_date: datetime.date | None = None) -> None:
         if expected_date is None:
-            self.date = self.time[0].date()
+            self.date = self.raw_time[0].date()
         else:
             is_valid = [dt.date() == expected_date for dt in self.raw_time]
             self.raw_time = self.raw_time[is_valid]
-- 
2.43.0


From 359eb1dd6a2b500a15b44c2f708c18430f06caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:42 +0000
Subject: [PATCH 19/78] fix: rd80: raise error if there are no time stamps of
 the requested date

---
 cloudnetpy/instruments/disdrometer/rd80.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/instruments/disdrometer/rd80.py b/cloudnetpy/instruments/disdrometer/rd80.py
index ab84880..5d43e05 100644
--- a/cloudnetpy/instruments/disdrometer/rd80.py
+++ b/cloudnetpy/instruments/disdrometer/rd80.py
@@ -11,6 +11,7 @@ from cloudnetpy import output
 from cloudnetpy.cloudnetarray import CloudnetArray
 from cloudnetpy.constants import MM_TO_M, SEC_IN_HOUR
 from cloudnetpy.disdronator.rd80 import A, Dlow, Dmid, Dspr, Dupp, Vmid, read_rd80
+from cloudnetpy.exceptions import ValidTimeStampError
 from cloudnetpy.instruments import instruments
 from cloudnetpy.instruments.cloudnet_instrument import CloudnetInstrument
 from cloudnetpy.utils import get_uuid
@@ -95,6 +96,8 @@ class Rd80(CloudnetInstrument):
             self.date = self.raw_time[0].date()
         else:
             is_valid = [dt.date() == expected_date for dt in self.raw_time]
+            if not any(is_valid):
+                raise ValidTimeStampError
             self.raw_time = self.raw_time[is_valid]
             for key in self.raw_data:
                 self.raw_data[key] = self.raw_data[key][is_valid]
-- 
2.43.0


From 8f3e649706aa566c1c39fd26e77e0285b0e14be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:49 +0000
Subject: [PATCH 20/78] fix: weather radar: raise error if there are no time
 stamps of the requested date

---
 cloudnetpy/instruments/weather_radar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/instruments/weather_radar.py b/cloudnetpy/instruments/weather_radar.py
index 059f78a..fa68c3e 100644
--- a/cloudnetpy/instruments/weather_radar.py
+++ b/cloudnetpy/instruments/weather_radar.py
@@ -106,6 +106,8 @@ class WeatherRadar(CloudnetInstrument):
             self.date = self.raw_time[0].date()
         else:
             is_valid = [dt.date() == expected_date for dt in self.raw_time]
+            if not any(is_valid):
+                raise ValidTimeStampError
             self.raw_time = self.raw_time[is_valid]
             for key in self.raw_data:
                 self.raw_data[key] = self.raw_data[key][is_valid]
-- 
2.43.0


From fad9f3e7898ac40fd82667cb05e634d9294d4820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:03 +0000
Subject: [PATCH 21/78] fix: nc_radar: single profile fails with a time stamp
 error

---
 cloudnetpy/instruments/nc_radar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/nc_radar.py b/cloudnetpy/instruments/nc_radar.py
index 25ff513..1ecbbd5 100644
--- a/cloudnetpy/instruments/nc_radar.py
+++ b/cloudnetpy/instruments/nc_radar.py
@@ -82,8 +82,8 @@ class NcRadar(DataSource, CloudnetInstrument):
 
     def mask_invalid_data(self) -> None:
         """Makes sure Z and v masks are also in other 2d variables."""
-        z_mask = self.data["Zh"][:].mask
-        v_mask = self.data["v"][:].mask
+        z_mask = ma.getmaskarray(self.data["Zh"][:])
+        v_mask = ma.getmaskarray(self.data["v"][:])
         for cloudnet_array in self.data.values():
             if cloudnet_array.data.ndim == 2:
                 cloudnet_array.mask_indices(z_mask)
-- 
2.43.0


From 14c5ee33583ad3172e6154c47115e5a416fa7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:54 +0000
Subject: [PATCH 22/78] fix: rebin_1d: bins without data are masked also when
 all values are zero or missing

---
 cloudnetpy/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index f3639d1..e836e19 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -184,10 +184,10 @@ def rebin_1d(
 
     """
     edges = binvec(x_new)
-    result = ma.zeros(len(x_new))
+    result = np.full(len(x_new), np.nan)
     array_screened = ma.masked_invalid(array, copy=True)  # data may contain nan-values
-    mask = ~array_screened.mask
-    if ma.any(array_screened[mask]):
+    mask = ~ma.getmaskarray(array_screened)
+    if np.any(mask):
         result, _, _ = stats.binned_statistic(
             x_in[mask],
             array_screened[mask],
-- 
2.43.0


From 9139fee3f1036b45e55307aae1e806a308e788a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:07 +0000
Subject: [PATCH 23/78] fix: rebin_2d: samples after the last bin are not an
 empty bin

---
 cloudnetpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index e836e19..7a6e41d 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -141,7 +141,7 @@ def rebin_2d(
     edges = binvec(x_new)
     binn = np.digitize(x_in, edges) - 1
     n_bins = len(x_new)
-    counts = np.bincount(binn[binn >= 0], minlength=n_bins)
+    counts = np.bincount(binn[(binn >= 0) & (binn < n_bins)], minlength=n_bins)
 
     stat_fn = REBIN_STAT_FN[statistic]
 
-- 
2.43.0


From 5c877cd15d58163f03a97aa6a3143b6de04ae470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:49 +0000
Subject: [PATCH 24/78] fix: lidar without any valid profile has no data on the
 grid instead of failing

---
 cloudnetpy/categorize/lidar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudnetpy/categorize/lidar.py b/cloudnetpy/categorize/lidar.py
index 4ad9066..3f575d9 100644
--- a/cloudnetpy/categorize/lidar.py
+++ b/cloudnetpy/categorize/lidar.py
@@ -38,6 +38,10 @@ class Lidar(DataSource):
         # Interpolate beta to new grid but ignore profiles that are completely masked
         beta = self.data["beta"][:]
         indices = [ind for ind, b in enumerate(beta) if ma.all(b) is not ma.masked]
+        if not indices:
+            shape = (len(time_new), len(height_new))
+            self.data["beta"].data = ma.masked_all(shape)
+            return list(range(len(time_new)))
         beta_interp = interpolate_2d_nearest(
             self.time[indices],
             self.height,
-- 
2.43.0


From 8d64c6c368ad09d6ae525bc26c61a40dc34f20e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:35 +0000
Subject: [PATCH 25/78] fix: keep attenuation status of radar pixels above
 severe attenuation

Pixels with a radar signal above a severely attenuated pixel were reported
as "No radar signal".
---
 cloudnetpy/products/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/classification.py b/cloudnetpy/products/classification.py
index 0b31cae..e527d80 100644
--- a/cloudnetpy/products/classification.py
+++ b/cloudnetpy/products/classification.py
@@ -173,7 +173,7 @@ def _get_radar_attenuation_status(
     severity[~is_corrected & is_attenuated & bits.radar] = AttStatus.UNCORRECTED
     is_severe = severity == AttStatus.SEVERE
     above_severe = utils.ffill(is_severe)
-    severity[above_severe & ~is_severe] = AttStatus.UNDETECTED
+    severity[above_severe & ~bits.radar] = AttStatus.UNDETECTED
     return severity
 
 
-- 
2.43.0


From 0df7fdc7a8bddb9ffa836e211c9b1d4b91f88585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:35 +0000
Subject: [PATCH 26/78] fix: classification without attenuation variables

The fallback for a missing attenuation variable was one-dimensional and could
not be added to the two-dimensional attenuation fields.
---
 cloudnetpy/products/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/classification.py b/cloudnetpy/products/classification.py
index e527d80..14ea21b 100644
--- a/cloudnetpy/products/classification.py
+++ b/cloudnetpy/products/classification.py
@@ -180,7 +180,7 @@ def _get_radar_attenuation_status(
 def _get_attenuation_classes(data_source: DataSource) -> AttenuationClass:
     def _read_atten(key: str) -> npt.NDArray:
         if key not in data_source.dataset.variables:
-            return np.zeros(data_source.time.shape)
+            return np.zeros(data_source.dataset.variables["category_bits"].shape)
         data = data_source.getvar(key)
         if isinstance(data, ma.MaskedArray):
             return data.filled(0)
-- 
2.43.0


From 5537aa6bba62087c75ce35d43f59ac7104402287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:35 +0000
Subject: [PATCH 27/78] fix: cloud top status of profiles without cloud

The status of cloud-free profiles was taken from the lowest gate or from
the arbitrary values under the mask.
---
 cloudnetpy/products/classification.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/products/classification.py b/cloudnetpy/products/classification.py
index 14ea21b..243a566 100644
--- a/cloudnetpy/products/classification.py
+++ b/cloudnetpy/products/classification.py
@@ -150,11 +150,15 @@ def _get_cloud_top_height_status(
     dist = np.abs(height[None, :] - tops[:, None])
     height_inds = dist.argmin(axis=1)
     att_at_top = att_status[np.arange(att_status.shape[0]), height_inds]
+    is_cloud = ~ma.getmaskarray(tops)
+    att_at_top[~is_cloud] = AttStatus.CLEAR
     status = np.zeros(att_at_top.size, dtype=int)
     status[att_at_top == AttStatus.MODERATE] = TopStatus.MODERATE_ATT
     status[att_at_top == AttStatus.SEVERE] = TopStatus.SEVERE_ATT
     status[att_at_top == AttStatus.UNCORRECTED] = TopStatus.UNCORR_ATT
-    status[tops >= height[-1]] = TopStatus.ABOVE_RANGE
+    status[is_cloud & ma.filled(tops >= height[-1], fill_value=False)] = (
+        TopStatus.ABOVE_RANGE
+    )
     return status
 
 
-- 
2.43.0


From 18f24725a2194e44ccadf64793212874b71109fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:57 +0000
Subject: [PATCH 28/78] fix: cloud bases and tops at zero altitude are not
 missing

---
 cloudnetpy/categorize/atmos_utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cloudnetpy/categorize/atmos_utils.py b/cloudnetpy/categorize/atmos_utils.py
index f8f41a0..be0e03f 100644
--- a/cloudnetpy/categorize/atmos_utils.py
+++ b/cloudnetpy/categorize/atmos_utils.py
@@ -41,8 +41,7 @@ def find_lowest_cloud_bases(
     height: npt.NDArray,
 ) -> ma.MaskedArray:
     """Finds altitudes of cloud bases."""
-    cloud_heights = cloud_mask * height
-    return _find_lowest_heights(cloud_heights)
+    return _find_lowest_heights(cloud_mask, height)
 
 
 def find_highest_cloud_tops(
@@ -50,15 +49,16 @@ def find_highest_cloud_tops(
     height: npt.NDArray,
 ) -> ma.MaskedArray:
     """Finds altitudes of cloud tops."""
-    cloud_heights = cloud_mask * height
-    cloud_heights_flipped = np.fliplr(cloud_heights)
-    return _find_lowest_heights(cloud_heights_flipped)
+    return _find_lowest_heights(np.fliplr(cloud_mask), np.flip(height))
 
 
-def _find_lowest_heights(cloud_heights: npt.NDArray) -> ma.MaskedArray:
-    inds = (cloud_heights != 0).argmax(axis=1)
-    heights = np.array([cloud_heights[i, ind] for i, ind in enumerate(inds)])
-    return ma.masked_equal(heights, 0.0)
+def _find_lowest_heights(
+    cloud_mask: npt.NDArray, height: npt.NDArray
+) -> ma.MaskedArray:
+    is_cloud = cloud_mask != 0
+    no_cloud = ~is_cloud.any(axis=1)
+    heights = np.where(no_cloud, 0.0, height[is_cloud.argmax(axis=1)])
+    return ma.array(heights, mask=no_cloud)
 
 
 def fill_clouds_with_lwc_dz(
-- 
2.43.0


From 9e0283aa6a51603a2a4516132be9bd0b34c22fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:27 +0000
Subject: [PATCH 29/78] fix: lwc: cloud base in the uppermost gate cannot be
 extended upwards

An adjustable cloud with its base in the last gate raised IndexError.
---
 cloudnetpy/products/lwc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/products/lwc.py b/cloudnetpy/products/lwc.py
index 80de7fc..bb19afa 100644
--- a/cloudnetpy/products/lwc.py
+++ b/cloudnetpy/products/lwc.py
@@ -227,6 +227,8 @@ class CloudAdjustor:
         self.status[time_ind, alt_indices] = 2
 
     def _adjust_lwc(self, time_ind: int, base_ind: int) -> None:
+        if self._out_of_bound(base_ind):
+            return
         lwc_base = self.lwc_adiabatic[time_ind, base_ind]
         distance_from_base = 1
         while True:
-- 
2.43.0


From 1dc2974970a1705c9003feb12317102ef98fcd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:27 +0000
Subject: [PATCH 30/78] fix: lwc: find also topmost clouds that begin in the
 lowest gate

---
 cloudnetpy/products/lwc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/lwc.py b/cloudnetpy/products/lwc.py
index bb19afa..0b80dda 100644
--- a/cloudnetpy/products/lwc.py
+++ b/cloudnetpy/products/lwc.py
@@ -258,7 +258,7 @@ class CloudAdjustor:
 
     def _find_topmost_clouds(self) -> npt.NDArray:
         top_clouds = np.copy(self.is_liquid)
-        cloud_edges = top_clouds[:, :-1][:, ::-1] < top_clouds[:, 1:][:, ::-1]
+        cloud_edges = atmos_utils.find_cloud_bases(top_clouds)[:, ::-1]
         topmost_bases = self.is_liquid.shape[1] - 1 - np.argmax(cloud_edges, axis=1)
         for n, base in enumerate(topmost_bases):
             top_clouds[n, :base] = 0
-- 
2.43.0


From 8af9e1742d9752ee922c840fc767463057c59a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:27 +0000
Subject: [PATCH 31/78] fix: lwc: pixels added above an adjusted cloud get
 their share of lwp

The extended adiabatic profile was calculated but not used: pixels with
retrieval status 3 had zero liquid water content and all the measured water
was still placed in the original pixels.
---
 cloudnetpy/products/lwc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cloudnetpy/products/lwc.py b/cloudnetpy/products/lwc.py
index 0b80dda..aacb2b4 100644
--- a/cloudnetpy/products/lwc.py
+++ b/cloudnetpy/products/lwc.py
@@ -221,6 +221,7 @@ class CloudAdjustor:
             base_index = np.where(adjustable_clouds[time_index, :])[0][0]
             self._update_status(time_index)
             self._adjust_lwc(time_index, base_index)
+            self._rescale_lwc(time_index)
 
     def _update_status(self, time_ind: npt.NDArray) -> None:
         alt_indices = np.where(self.is_liquid[time_ind, :])[0]
@@ -241,6 +242,13 @@ class CloudAdjustor:
                 break
             distance_from_base += 1
 
+    def _rescale_lwc(self, time_ind: int) -> None:
+        """Distributes the measured lwp to the cloud with the adjusted top."""
+        lwc_adiabatic = self.lwc_adiabatic[time_ind, :]
+        theoretical_lwp = ma.sum(lwc_adiabatic * self.lwc_source.path_lengths)
+        scaling_factor = self.lwc_source.lwp[time_ind] / theoretical_lwp
+        self.lwc[time_ind, :] = lwc_adiabatic * scaling_factor
+
     def _has_converged(self, ind: int) -> bool:
         lwc_sum = ma.sum(self.lwc_adiabatic[ind, :] * self.lwc_source.path_lengths)
         return lwc_sum > self.lwc_source.lwp[ind]
-- 
2.43.0


From cfbe87f88793c6d6a80e684bca99411733a0aac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 32/78] fix: weight reflectivity with gate thickness in droplet
 layer integral of der

---
 cloudnetpy/products/der.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/der.py b/cloudnetpy/products/der.py
index 68e479c..527c3eb 100644
--- a/cloudnetpy/products/der.py
+++ b/cloudnetpy/products/der.py
@@ -167,7 +167,7 @@ class DerSource(DataSource):
             if Z[ind_t, idx_layer].mask.all():
                 continue
 
-            integral = ma.sum(ma.sqrt(Z[ind_t, idx_layer])) * path_lengths[idx_layer]
+            integral = ma.sum(ma.sqrt(Z[ind_t, idx_layer]) * path_lengths[idx_layer])
 
             # der formula (5)
             A = (Z[ind_t, idx_layer] / params.N) ** (1 / 6)
-- 
2.43.0


From 5c1cbc6bd0ba3f049b9ada081250b36136bedd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 33/78] fix: no scaled effective radius without liquid water
 path

---
 cloudnetpy/products/der.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/products/der.py b/cloudnetpy/products/der.py
index 527c3eb..c9db9e7 100644
--- a/cloudnetpy/products/der.py
+++ b/cloudnetpy/products/der.py
@@ -208,9 +208,9 @@ class DerSource(DataSource):
         der_scaled_error = (
             ma.masked_less_equal(ma.masked_invalid(der_scaled_error), 0.0) * 1.0e-3
         )
-        if isinstance(lwp, ma.MaskedArray):
-            for var in (der_scaled, der_scaled_error, N_scaled):
-                var[lwp.mask] = ma.masked
+        no_lwp = ma.filled(lwp, 0) <= 0
+        for var in (der_scaled, der_scaled_error, N_scaled):
+            var[no_lwp] = ma.masked
 
         self.append_data(N_scaled, "N_scaled")
         self.append_data(der, "der")
-- 
2.43.0


From ec4bd1ecf981b0b49851332ffc9b266e790e56d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:14 +0000
Subject: [PATCH 34/78] fix: drizzle status of pixels without v_sigma

Pixels with a missing v_sigma were reported as reliable retrievals although
nothing is retrieved in them.
---
 cloudnetpy/products/drizzle_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/drizzle_tools.py b/cloudnetpy/products/drizzle_tools.py
index 70ff2e1..3f81580 100644
--- a/cloudnetpy/products/drizzle_tools.py
+++ b/cloudnetpy/products/drizzle_tools.py
@@ -109,7 +109,7 @@ class DrizzleClassification(ProductClassification):
     @staticmethod
     def _find_v_sigma(cat_file: str | PathLike) -> npt.NDArray:
         v_sigma = product_tools.read_nc_field(cat_file, "v_sigma")
-        return np.isfinite(v_sigma)
+        return ma.filled(np.isfinite(v_sigma), fill_value=False)
 
     def _find_warm_liquid(self) -> npt.NDArray:
         return self.category_bits.droplet & ~self.category_bits.freezing
-- 
2.43.0


From 4aa7800ce9dd0b88cbd74bdab2671ddb53e5daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:32 +0000
Subject: [PATCH 35/78] fix: drizzle parameters whose retrieved value is zero
 are not missing

---
 cloudnetpy/products/drizzle.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/products/drizzle.py b/cloudnetpy/products/drizzle.py
index bf26ab2..e555dfd 100644
--- a/cloudnetpy/products/drizzle.py
+++ b/cloudnetpy/products/drizzle.py
@@ -196,9 +196,13 @@ def _screen_rain(results: dict, classification: DrizzleClassification) -> dict:
 
 def _append_data(drizzle_data: DrizzleSource, results: dict) -> None:
     """Save retrieved fields to the drizzle_data object."""
+    no_retrieval = results["Do"] == 0
     for key, value in results.items():
-        if key != "drizzle_retrieval_status":
+        if key == "beta_corr":
             arr = ma.masked_where(value == 0, value)
+        elif key != "drizzle_retrieval_status":
+            is_field = np.shape(value) == no_retrieval.shape
+            arr = ma.masked_where(no_retrieval if is_field else value == 0, value)
         else:
             arr = value
         drizzle_data.append_data(arr, key)
-- 
2.43.0


From 430e0bd46a9cd0fd03bbd1ad988a5706e0e825f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:32 +0000
Subject: [PATCH 36/78] fix: error of drizzle diameter is not overwritten by
 that of fall velocity

---
 cloudnetpy/products/drizzle_error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/drizzle_error.py b/cloudnetpy/products/drizzle_error.py
index e88b118..b0a93cf 100644
--- a/cloudnetpy/products/drizzle_error.py
+++ b/cloudnetpy/products/drizzle_error.py
@@ -112,7 +112,7 @@ def _add_supplementary_errors(
         return _stack_errors(n_error, drizzle_indices)
 
     def _calc_v_error() -> ma.MaskedArray:
-        error = results["Do_error"]
+        error = ma.copy(results["Do_error"])
         error[drizzle_indices["tiny"]] *= error[drizzle_indices["tiny"]]
         return error
 
-- 
2.43.0


From 9557ef997d8879b29cb232dd8a005edbf06c8856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 37/78] fix: rain attenuation without valid rainfall rate is
 uncorrected

---
 cloudnetpy/categorize/attenuations/rain_attenuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/categorize/attenuations/rain_attenuation.py b/cloudnetpy/categorize/attenuations/rain_attenuation.py
index 9ae6ced..7f1bf38 100644
--- a/cloudnetpy/categorize/attenuations/rain_attenuation.py
+++ b/cloudnetpy/categorize/attenuations/rain_attenuation.py
@@ -41,14 +41,14 @@ def calc_rain_attenuation(
     )
 
     two_way_attenuation[~inducing_region] = 0
-    two_way_attenuation = ma.array(utils.ffill(two_way_attenuation.data))
+    two_way_attenuation = ma.array(utils.ffill(two_way_attenuation.filled(0)))
     two_way_attenuation[two_way_attenuation == 0] = ma.masked
 
     return Attenuation(
         amount=two_way_attenuation,
         error=two_way_attenuation * 0.2,
         attenuated=affected_region,
-        uncorrected=np.zeros_like(affected_region, dtype=bool),
+        uncorrected=affected_region & ma.getmaskarray(two_way_attenuation),
     )
 
 
-- 
2.43.0


From a054ef194e7cdb8c2b27c847ed46e24d04a55a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 38/78] fix: clutter is not detected in rainy profiles

---
 cloudnetpy/categorize/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/containers.py b/cloudnetpy/categorize/containers.py
index 1631036..dd6d6a0 100644
--- a/cloudnetpy/categorize/containers.py
+++ b/cloudnetpy/categorize/containers.py
@@ -164,5 +164,5 @@ def _find_clutter(
     is_clutter = np.zeros(v.shape, dtype=bool)
     filled = False
     tiny_velocity = ma.less(ma.abs(v[:, :n_gates]), v_lim).filled(filled)
-    is_clutter[:, :n_gates] = tiny_velocity * utils.transpose(~is_rain)
+    is_clutter[:, :n_gates] = tiny_velocity & utils.transpose(is_rain == 0)
     return is_clutter
-- 
2.43.0


From 0db618fe379c891399cc9c203f04a4322f9c77a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 39/78] fix: use temperature to filter out snowfall when
 synop_WaWa is missing

---
 cloudnetpy/categorize/containers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cloudnetpy/categorize/containers.py b/cloudnetpy/categorize/containers.py
index dd6d6a0..362a2da 100644
--- a/cloudnetpy/categorize/containers.py
+++ b/cloudnetpy/categorize/containers.py
@@ -93,16 +93,17 @@ class ClassData:
         ind = ~rain_from_disdrometer.mask
         is_rain[ind] = rain_from_disdrometer[ind]
         # Filter out snowfall:
+        mask = ma.getmaskarray(self.tw)
+        first_valid_ind = np.nonzero(np.all(~mask, axis=0))[0][0]
+        liquid_rain_only = ma.getdata(self.tw[:, first_valid_ind]) > T0 + 5
         if (
             self.data.disdrometer is not None
             and "synop_WaWa" in self.data.disdrometer.data
         ):
             wawa = self.data.disdrometer.data["synop_WaWa"].data
-            liquid_rain_only = (wawa >= 57) & (wawa <= 68)
-        else:
-            mask = ma.getmaskarray(self.tw)
-            first_valid_ind = np.nonzero(np.all(~mask, axis=0))[0][0]
-            liquid_rain_only = self.tw[:, first_valid_ind] > T0 + 5
+            is_wawa = ~ma.getmaskarray(wawa)
+            is_liquid = (wawa >= 57) & (wawa <= 68)
+            liquid_rain_only[is_wawa] = is_liquid[is_wawa]
         return is_rain & liquid_rain_only
 
     def _find_rain_from_radar_echo(self) -> npt.NDArray:
-- 
2.43.0


From 4f8e3e1aec2a6e33e0ec190b38335701713c79b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 40/78] fix: clutter reclassified as falling is not aerosol or
 insects

---
 cloudnetpy/categorize/classify.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/categorize/classify.py b/cloudnetpy/categorize/classify.py
index eeb39cf..63e7d99 100644
--- a/cloudnetpy/categorize/classify.py
+++ b/cloudnetpy/categorize/classify.py
@@ -310,6 +310,8 @@ def _remove_clutter_in_liquid(
     false_clutter = is_clutter & near_liquid
     is_clutter[false_clutter] = False
     bits.falling[false_clutter] = True
+    bits.aerosol[false_clutter] = False
+    bits.insect[false_clutter] = False
     return is_clutter
 
 
-- 
2.43.0


From fb8b181d01211085e559d5305fae1f309bf16e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 41/78] fix: falling speckle inside liquid droplets is not
 aerosol or insects

---
 cloudnetpy/categorize/classify.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/categorize/classify.py b/cloudnetpy/categorize/classify.py
index 63e7d99..f81d2e8 100644
--- a/cloudnetpy/categorize/classify.py
+++ b/cloudnetpy/categorize/classify.py
@@ -329,6 +329,8 @@ def _filter_falling(bits: CategoryBits, obs: ClassData) -> None:
         dtype=bool,
     )
     is_falling[filtered_out] = False
+    # Liquid droplets remain what they are
+    filtered_out &= ~bits.droplet
     # In warm conditions, these are likely insects
     bits.insect[filtered_out & ~is_freezing] = True
     bits.aerosol[filtered_out & ~is_freezing & is_beta] = True
-- 
2.43.0


From b35d9f4ee6f46b95ac614938651d2cd4ca286794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 42/78] fix: melting layer changes insects only in neighbouring
 pixels

---
 cloudnetpy/categorize/classify.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/categorize/classify.py b/cloudnetpy/categorize/classify.py
index f81d2e8..cb1189f 100644
--- a/cloudnetpy/categorize/classify.py
+++ b/cloudnetpy/categorize/classify.py
@@ -273,7 +273,7 @@ def _filter_insects(bits: CategoryBits) -> None:
     for x, y in zip(*np.where(is_melting_layer), strict=True):
         try:
             # change insects to drizzle below melting layer pixel
-            ind1 = np.arange(y - n_gates, y)
+            ind1 = np.arange(max(y - n_gates, 0), y)
             ind11 = np.where(original_insects[x, ind1])[0]
             n_drizzle = sum(is_falling[x, :y])
             if n_drizzle > 5:
@@ -282,7 +282,9 @@ def _filter_insects(bits: CategoryBits) -> None:
             else:
                 continue
             # change insects on the right and left of melting layer pixel to drizzle
-            ind1 = np.arange(x - n_gates, x + n_gates + 1)
+            ind1 = np.arange(
+                max(x - n_gates, 0), min(x + n_gates + 1, len(is_melting_layer))
+            )
             ind11 = np.where(original_insects[ind1, y])[0]
             is_falling[ind1[ind11], y - 1 : y + 2] = True
             is_insects[ind1[ind11], y - 1 : y + 2] = False
-- 
2.43.0


From 34c85e14ad50797aeb06825e5199a042d01d28d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 43/78] fix: pixels without insects next to melting layer are
 not falling

---
 cloudnetpy/categorize/classify.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/categorize/classify.py b/cloudnetpy/categorize/classify.py
index cb1189f..818f38e 100644
--- a/cloudnetpy/categorize/classify.py
+++ b/cloudnetpy/categorize/classify.py
@@ -286,8 +286,9 @@ def _filter_insects(bits: CategoryBits) -> None:
                 max(x - n_gates, 0), min(x + n_gates + 1, len(is_melting_layer))
             )
             ind11 = np.where(original_insects[ind1, y])[0]
-            is_falling[ind1[ind11], y - 1 : y + 2] = True
-            is_insects[ind1[ind11], y - 1 : y + 2] = False
+            ind2 = (ind1[ind11], slice(max(y - 1, 0), y + 2))
+            is_falling[ind2] |= original_insects[ind2]
+            is_insects[ind2] = False
         except IndexError:
             continue
     bits.falling = is_falling
-- 
2.43.0


From b51d66ef16b8da6f666763f2f59041345ca7e780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 44/78] fix: melting layer search in the uppermost gate

---
 cloudnetpy/categorize/melting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/melting.py b/cloudnetpy/categorize/melting.py
index 098723d..9ad02aa 100644
--- a/cloudnetpy/categorize/melting.py
+++ b/cloudnetpy/categorize/melting.py
@@ -58,7 +58,8 @@ def find_melting_layer(obs: ClassData, *, smooth: bool = True) -> npt.NDArray:
     if hasattr(obs, "ldr"):
         # Required for peak detection
         diffu = ma.array(np.diff(obs.ldr, axis=1))
-        ldr_diff = diffu.filled(0)
+        ldr_diff = np.zeros(obs.ldr.shape)
+        ldr_diff[:, :-1] = diffu.filled(0)
 
     t_range = _find_model_temperature_range(obs.model_type)
 
-- 
2.43.0


From bf4c7b061f877635954b5889a8ad0b2999646fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 45/78] fix: close categorize input files also when one of them
 can not be opened

---
 cloudnetpy/categorize/categorize.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cloudnetpy/categorize/categorize.py b/cloudnetpy/categorize/categorize.py
index 42cc394..cba7a31 100644
--- a/cloudnetpy/categorize/categorize.py
+++ b/cloudnetpy/categorize/categorize.py
@@ -160,25 +160,30 @@ def generate_categorize(
         return utils.time_grid(), data.radar.height
 
     def _close_all() -> None:
-        if "data" in locals():
-            for field in fields(data):
-                obj = getattr(data, field.name)
-                if isinstance(obj, DataSource):
-                    obj.close()
+        for source in sources:
+            source.close()
 
+    sources: list[DataSource] = []
     try:
         radar = Radar(input_files["radar"])
+        sources.append(radar)
+        lidar = Lidar(input_files["lidar"])
+        sources.append(lidar)
+        model = Model(input_files["model"], radar.altitude, options)
+        sources.append(model)
         data = Observations(
             radar=radar,
-            lidar=Lidar(input_files["lidar"]),
-            model=Model(input_files["model"], radar.altitude, options),
+            lidar=lidar,
+            model=model,
             lv0_files=input_files.get("lv0_files"),
         )
         if "mwr" in input_files:
             data.mwr = Mwr(input_files["mwr"])
+            sources.append(data.mwr)
         if "disdrometer" in input_files:
             try:
                 data.disdrometer = Disdrometer(input_files["disdrometer"])
+                sources.append(data.disdrometer)
             except DisdrometerDataError as err:
                 logging.warning("Unable to use disdrometer: %s", err)
         time, height = _define_dense_grid()
-- 
2.43.0


From 6adbdca29f9a0e37d0ba39869f96257b92245b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 46/78] fix: error of reflectivity includes that of gaseous
 attenuation

---
 cloudnetpy/categorize/radar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudnetpy/categorize/radar.py b/cloudnetpy/categorize/radar.py
index 3afddb2..86ff691 100644
--- a/cloudnetpy/categorize/radar.py
+++ b/cloudnetpy/categorize/radar.py
@@ -273,6 +273,7 @@ class Radar(DataSource):
 
             z_error = utils.l2norm(
                 z_precision,
+                ma.filled(attenuations.gas.error, 0),
                 attenuations.liquid.error.filled(0),
                 attenuations.rain.error.filled(0),
                 attenuations.melting.error.filled(0),
-- 
2.43.0


From ad0ab92d3ca61151598a6e394541a76373a579ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 47/78] fix: radar echoes only in the uppermost gates

Rain was looked for three gates above the first one with data, which failed
with IndexError if that was beyond the uppermost gate.
---
 cloudnetpy/categorize/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/containers.py b/cloudnetpy/categorize/containers.py
index 362a2da..5d136d0 100644
--- a/cloudnetpy/categorize/containers.py
+++ b/cloudnetpy/categorize/containers.py
@@ -108,7 +108,7 @@ class ClassData:
 
     def _find_rain_from_radar_echo(self) -> npt.NDArray:
         first_gate_with_data = np.argmin(self.z.mask.all(axis=0))
-        gate_number = first_gate_with_data + 3
+        gate_number = min(first_gate_with_data + 3, self.z.shape[1] - 1)
         threshold = {"z": 3, "v": 0, "ldr": -15}
         z = self.z[:, gate_number]
         v = self.v[:, gate_number]
-- 
2.43.0


From 5542bcd799c59e7b750f076e417f162251909100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 48/78] fix: classification of profiles that are warmer than 0
 degC up to the top

Both the altitude of 0 degC and the correction of liquid cloud tops failed
with IndexError if there were no freezing pixels.
---
 cloudnetpy/categorize/droplet.py  | 2 ++
 cloudnetpy/categorize/freezing.py | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/droplet.py b/cloudnetpy/categorize/droplet.py
index d310967..8230980 100644
--- a/cloudnetpy/categorize/droplet.py
+++ b/cloudnetpy/categorize/droplet.py
@@ -45,6 +45,8 @@ def correct_liquid_top(
 
 
 def _find_ind_above_top(is_freezing_from_peak: npt.NDArray, top_above: int) -> int:
+    if not np.any(is_freezing_from_peak):
+        return len(is_freezing_from_peak) - 1
     first_point_below_zero = np.where(is_freezing_from_peak)[0][0]
     ind = first_point_below_zero + top_above
     return min(len(is_freezing_from_peak) - 1, ind)
diff --git a/cloudnetpy/categorize/freezing.py b/cloudnetpy/categorize/freezing.py
index ed87d86..cf3e43f 100644
--- a/cloudnetpy/categorize/freezing.py
+++ b/cloudnetpy/categorize/freezing.py
@@ -94,7 +94,12 @@ def find_t0_alt(temperature: npt.NDArray, height: npt.NDArray) -> npt.NDArray:
     """
     alt: npt.NDArray = np.array([])
     for prof in temperature:
-        ind = np.where(prof < T0)[0][0]
+        is_below_zero = prof < T0
+        if not np.any(is_below_zero):
+            # Freezing level is somewhere above the grid.
+            alt = np.append(alt, 2 * height[-1] - height[-2])
+            continue
+        ind = np.where(is_below_zero)[0][0]
         if ind == 0:
             alt = np.append(alt, height[0])
         else:
-- 
2.43.0


From 0c722271611672012234822b9c083edc93e5926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 49/78] fix: history of L3 products includes that of the
 observations

---
 cloudnetpy/model_evaluation/file_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/model_evaluation/file_handler.py b/cloudnetpy/model_evaluation/file_handler.py
index e4e132a..4704a6e 100644
--- a/cloudnetpy/model_evaluation/file_handler.py
+++ b/cloudnetpy/model_evaluation/file_handler.py
@@ -90,7 +90,9 @@ def save_downsampled_file(
         root_group.location = location
         if not hasattr(model_obj.dataset, "day"):
             root_group.year, root_group.month, root_group.day = model_obj.date
-        output.merge_history(root_group, f"L3 {product_name}", model_obj)
+        output.merge_history(
+            root_group, f"L3 {product_name}", model_obj, extra_sources=(obs_obj,)
+        )
 
 
 def _augment_global_attributes(root_group: netCDF4.Dataset) -> None:
-- 
2.43.0


From 338464df6d05230f1b190abceebfe3b78ab7d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 50/78] fix: history of epsilon-lidar product in order and
 without duplicates

---
 cloudnetpy/output.py                 | 12 +++++++-----
 cloudnetpy/products/epsilon_lidar.py | 13 +++++--------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/cloudnetpy/output.py b/cloudnetpy/output.py
index 71669d6..1ebe52e 100644
--- a/cloudnetpy/output.py
+++ b/cloudnetpy/output.py
@@ -257,8 +257,12 @@ def merge_history(
     for src in extra_sources:
         histories.extend(extract_history(src))
 
-    # Remove duplicates
-    histories = list(dict.fromkeys(histories))
+    new_record = f"{utils.get_time()} - {file_type} file created"
+    nc.history = "\n".join([new_record, *sort_history(histories)])
+
+
+def sort_history(histories: list[str]) -> list[str]:
+    """Sorts history records from newest to oldest and removes duplicates."""
 
     def parse_time(line: str) -> datetime.datetime:
         try:
@@ -270,9 +274,7 @@ def merge_history(
                 tzinfo=datetime.timezone.utc
             )  # malformed lines to bottom
 
-    histories.sort(key=parse_time, reverse=True)
-    new_record = f"{utils.get_time()} - {file_type} file created"
-    nc.history = new_record + "".join(f"\n{h}" for h in histories)
+    return sorted(dict.fromkeys(histories), key=parse_time, reverse=True)
 
 
 def add_source_instruments(nc: netCDF4.Dataset, data: Observations) -> None:
diff --git a/cloudnetpy/products/epsilon_lidar.py b/cloudnetpy/products/epsilon_lidar.py
index b4c28f4..a65ae2f 100644
--- a/cloudnetpy/products/epsilon_lidar.py
+++ b/cloudnetpy/products/epsilon_lidar.py
@@ -101,16 +101,13 @@ def generate_epsilon_from_lidar(
         nc_out.source_file_uuids = f"{nc_src_stare.file_uuid}, {nc_src_wind.file_uuid}"
         sources = {nc_src_stare.source, nc_src_wind.source}
         nc_out.source = ", ".join(sources)
-        history = (
+        new_record = (
             f"{get_time()} - epsilon-lidar file created using doppy "
-            f"v{doppy.__version__} and cloudnetpy v{cloudnetpy.__version__}\n"
-            f"{nc_src_stare.history}\n"
-            f"{nc_src_wind.history}"
+            f"v{doppy.__version__} and cloudnetpy v{cloudnetpy.__version__}"
         )
-        history = "\n".join(
-            line.strip() for line in history.splitlines() if line.strip()
-        )
-        nc_out.history = history
+        history = f"{nc_src_stare.history}\n{nc_src_wind.history}"
+        records = [line.strip() for line in history.splitlines() if line.strip()]
+        nc_out.history = "\n".join([new_record, *output.sort_history(records)])
         nc_out.references = "https://doi.org/10.1175/2010JTECHA1455.1"
     return uuid
 
-- 
2.43.0


From 0e71ae463c45120c33767da1e680572f6a774cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 51/78] fix: coordinates in southern and western hemisphere
 from global attributes

---
 cloudnetpy/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index 7a6e41d..25b4f7e 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -1196,7 +1196,9 @@ def _parse_global_attribute_numeral(dataset: netCDF4.Dataset, key: str) -> float
     for char in attr:
         if char.isdigit() or char == "." or (char == "-" and not new_str):
             new_str += char
-    return float(new_str)
+    value = float(new_str)
+    is_negative = key != "Altitude" and attr.strip().upper().endswith(("S", "W"))
+    return -abs(value) if is_negative else value
 
 
 def _are_stationary(latitude: npt.NDArray, longitude: npt.NDArray) -> bool:
-- 
2.43.0


From 83780af9a36a599b3239557f986464f2009aac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 52/78] fix: missing scalar stays missing in concatenated files

---
 cloudnetpy/concat_lib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index ff54f92..e037346 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -221,6 +221,9 @@ class _Concat:
     ) -> tuple[ma.MaskedArray, tuple[str, ...]]:
         dimensions = var.dimensions
         arr = var[:]
+        if arr is ma.masked:
+            # Missing scalar: give it the data type and fill value of the variable
+            arr = ma.array(var.get_fill_value(), mask=True, dtype=var.dtype)
         if self.concat_dimension not in dimensions and var.name != self.interp_dim:
             dimensions = (self.concat_dimension, *dimensions)
             arr = np.repeat(arr[np.newaxis, ...], n_data, axis=0)
-- 
2.43.0


From 2fe5cf3513b86a3cd5056dd28b8c10cb5dd74437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 53/78] fix: definition of drizzle retrieval status values

---
 cloudnetpy/products/drizzle.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cloudnetpy/products/drizzle.py b/cloudnetpy/products/drizzle.py
index e555dfd..f53a71a 100644
--- a/cloudnetpy/products/drizzle.py
+++ b/cloudnetpy/products/drizzle.py
@@ -208,6 +208,19 @@ def _append_data(drizzle_data: DrizzleSource, results: dict) -> None:
         drizzle_data.append_data(arr, key)
 
 
+DEFINITIONS = {
+    "drizzle_retrieval_status": utils.status_field_definition(
+        {
+            0: """No drizzle detected.""",
+            1: """Reliable retrieval.""",
+            2: """Drizzle in a profile with melting layer.""",
+            3: """Drizzle mixed with liquid cloud droplets: no retrieval.""",
+            4: """Warm liquid cloud without drizzle: no retrieval.""",
+            5: """Rain at the surface: no retrieval.""",
+        }
+    ),
+}
+
 DRIZZLE_ATTRIBUTES = {
     "drizzle_N": MetaData(
         long_name="Drizzle number concentration",
@@ -333,6 +346,7 @@ DRIZZLE_ATTRIBUTES = {
     ),
     "drizzle_retrieval_status": MetaData(
         long_name="Drizzle parameter retrieval status",
+        definition=DEFINITIONS["drizzle_retrieval_status"],
         units="1",
         dimensions=("time", "height"),
     ),
-- 
2.43.0


From a645c59dcca741c34165974d7e0568268c265f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:25 +0000
Subject: [PATCH 54/78] fix: pollyxt: use zenith angle given by the user

---
 cloudnetpy/instruments/pollyxt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/pollyxt.py b/cloudnetpy/instruments/pollyxt.py
index cba7681..e3d80c8 100644
--- a/cloudnetpy/instruments/pollyxt.py
+++ b/cloudnetpy/instruments/pollyxt.py
@@ -103,7 +103,7 @@ class PollyXt(Ceilometer):
 
     def fetch_zenith_angle(self) -> None:
         default = 5
-        self.data["zenith_angle"] = float(self.metadata.get("zenith_angle", default))
+        self.data["zenith_angle"] = float(self.site_meta.get("zenith_angle", default))
 
     def fetch_data(
         self, input_data: str | PathLike | Sequence[str | PathLike]
-- 
2.43.0


From 41ad67da1c3827b501a149ab827b1b1c6ec3050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:25 +0000
Subject: [PATCH 55/78] fix: drizzle: no reference to missing variable
 v_air_error

---
 cloudnetpy/products/drizzle.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cloudnetpy/products/drizzle.py b/cloudnetpy/products/drizzle.py
index f53a71a..3730e1b 100644
--- a/cloudnetpy/products/drizzle.py
+++ b/cloudnetpy/products/drizzle.py
@@ -291,7 +291,6 @@ DRIZZLE_ATTRIBUTES = {
     "v_air": MetaData(
         long_name="Vertical air velocity",
         units="m s-1",
-        ancillary_variables="v_air_error",
         comment="Positive values are towards the sky.",
         standard_name="upward_air_velocity",
         dimensions=("time", "height"),
-- 
2.43.0


From 8bd38246713caf894911cb7a26595fe3befbf7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 56/78] fix: cloud fraction without observations is missing

---
 .../model_evaluation/products/grid_methods.py   | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/cloudnetpy/model_evaluation/products/grid_methods.py b/cloudnetpy/model_evaluation/products/grid_methods.py
index 364209d..fcd024e 100644
--- a/cloudnetpy/model_evaluation/products/grid_methods.py
+++ b/cloudnetpy/model_evaluation/products/grid_methods.py
@@ -63,13 +63,12 @@ class ProductGrid:
                 ind = np.outer(x_ind, y_ind)
                 ind_avd = np.outer(x_ind_adv, y_ind)
                 if self._obs_obj.product == "cf":
+                    # Without observations in the window (e.g. masked model wind
+                    # collapses the advection window), the cell remains masked.
                     data = self._reshape_data_to_window(ind, x_ind, y_ind)
-                    if data is None:
-                        continue
-                    product_dict = self._regrid_cf(product_dict, i, j, data)
+                    if data is not None:
+                        product_dict = self._regrid_cf(product_dict, i, j, data)
                     data_adv = self._reshape_data_to_window(ind_avd, x_ind_adv, y_ind)
-                    # No advection window data (e.g. masked model wind collapses
-                    # the window); leave the cell unfilled like the standard grid.
                     if data_adv is not None:
                         product_adv_dict = self._regrid_cf(
                             product_adv_dict, i, j, data_adv
@@ -91,12 +90,12 @@ class ProductGrid:
 
     def _cf_method_storage(self) -> tuple[dict, dict]:
         cf_dict = {
-            "cf_V": ma.zeros(self._model_height.shape),
-            "cf_A": ma.zeros(self._model_height.shape),
+            "cf_V": ma.masked_all(self._model_height.shape),
+            "cf_A": ma.masked_all(self._model_height.shape),
         }
         cf_adv_dict = {
-            "cf_V_adv": ma.zeros(self._model_height.shape),
-            "cf_A_adv": ma.zeros(self._model_height.shape),
+            "cf_V_adv": ma.masked_all(self._model_height.shape),
+            "cf_A_adv": ma.masked_all(self._model_height.shape),
         }
         return cf_dict, cf_adv_dict
 
-- 
2.43.0


From 6f7584706968563b78370c02adcf745a2a9dd8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 57/78] fix: model heights of evaluation are above ground, not
 above sea level

---
 cloudnetpy/model_evaluation/products/advance_methods.py | 6 +++++-
 cloudnetpy/model_evaluation/products/grid_methods.py    | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/model_evaluation/products/advance_methods.py b/cloudnetpy/model_evaluation/products/advance_methods.py
index 906a1cc..a735420 100644
--- a/cloudnetpy/model_evaluation/products/advance_methods.py
+++ b/cloudnetpy/model_evaluation/products/advance_methods.py
@@ -52,7 +52,11 @@ class AdvanceProductMethods:
         t_screened = self.remove_extra_levels(temperature - 273.15)
         iwc, lwc = (self._model_obj.get_water_content(var) for var in ["iwc", "lwc"])
         coeffs = self.set_frequency_parameters()
-        z_sen = self.fit_z_sensitivity(h)
+        # Model heights are above ground, observations above mean sea level.
+        surface_altitude = cl_tools.get_model_surface_altitude(
+            self._model_obj.dataset, self._obs_obj.altitude or 0.0
+        )
+        z_sen = self.fit_z_sensitivity(h + surface_altitude)
         cf_filtered = self.filter_high_iwc_low_cf(cf, iwc, lwc)
         cloud_iwc, ice_ind = self.find_ice_in_clouds(cf_filtered, iwc, lwc)
         variance_iwc = self.iwc_variance(h, ice_ind)
diff --git a/cloudnetpy/model_evaluation/products/grid_methods.py b/cloudnetpy/model_evaluation/products/grid_methods.py
index fcd024e..76d9730 100644
--- a/cloudnetpy/model_evaluation/products/grid_methods.py
+++ b/cloudnetpy/model_evaluation/products/grid_methods.py
@@ -28,7 +28,13 @@ class ProductGrid:
         self._obs_data = obs_obj.data[obs_obj.product][:]
         self.model_obj = model_obj
         self._model_time = model_obj.time
-        self._model_height = model_obj.data[model_obj.keys["height"]][:]
+        # Model heights are above ground, observations above mean sea level.
+        surface_altitude = utils.get_model_surface_altitude(
+            model_obj.dataset, obs_obj.altitude or 0.0
+        )
+        self._model_height = (
+            model_obj.data[model_obj.keys["height"]][:] + surface_altitude
+        )
         self._time_adv = tl.calculate_advection_time(
             model_obj.resolution_h,
             ma.array(model_obj.wind),
-- 
2.43.0


From 8547d37b8f09f3f52ae046f1e0ffa3683300a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 58/78] fix: wind shear of cirrus filter is vertical, not
 temporal

---
 cloudnetpy/model_evaluation/products/advance_methods.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/model_evaluation/products/advance_methods.py b/cloudnetpy/model_evaluation/products/advance_methods.py
index a735420..64ed0ec 100644
--- a/cloudnetpy/model_evaluation/products/advance_methods.py
+++ b/cloudnetpy/model_evaluation/products/advance_methods.py
@@ -161,7 +161,10 @@ class AdvanceProductMethods:
         v = self._model_obj.getvar("vwind")
         u = self.remove_extra_levels(u)
         v = self.remove_extra_levels(v)
-        w_shear = self.calculate_wind_shear(self._model_obj.wind, u, v, height)
+        # The shear is calculated along the first dimension.
+        w_shear = self.calculate_wind_shear(
+            self._model_obj.wind.T, u.T, v.T, height.T
+        ).T
         return self.calculate_variance_iwc(w_shear, ice_ind)
 
     def calculate_variance_iwc(
-- 
2.43.0


From 4abc0de987f24efe4542a5e03c94b336bbb7398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 59/78] fix: radar sensitivity of unevenly spaced model levels

---
 .../model_evaluation/products/advance_methods.py     | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/model_evaluation/products/advance_methods.py b/cloudnetpy/model_evaluation/products/advance_methods.py
index 64ed0ec..9a2cb87 100644
--- a/cloudnetpy/model_evaluation/products/advance_methods.py
+++ b/cloudnetpy/model_evaluation/products/advance_methods.py
@@ -8,6 +8,7 @@ import cloudnetpy.utils as cl_tools
 from cloudnetpy.model_evaluation.model_metadata import MODEL_PREFIX
 from cloudnetpy.model_evaluation.products.model_products import ModelManager
 from cloudnetpy.model_evaluation.products.observation_products import ObservationManager
+from cloudnetpy.model_evaluation.products.tools import rebin_edges
 from cloudnetpy.products.product_tools import (
     IceCoefficients,
     get_ice_coefficients,
@@ -108,8 +109,17 @@ class AdvanceProductMethods:
         if self._obs_obj.height is None:
             msg = "No height in observation file"
             raise ValueError(msg)
+        sensitivity = ma.masked_invalid(self._obs_obj.z_sensitivity)
+        is_valid = ~ma.getmaskarray(sensitivity)
+        if not np.any(is_valid):
+            return np.full(h.shape, np.nan)
         z_sen = [
-            cl_tools.rebin_1d(self._obs_obj.height, self._obs_obj.z_sensitivity, h[i])
+            scipy.stats.binned_statistic(
+                self._obs_obj.height[is_valid],
+                sensitivity[is_valid],
+                statistic="mean",
+                bins=rebin_edges(h[i]),  # model levels are not evenly spaced
+            ).statistic
             for i in range(len(h))
         ]
         return np.asarray(z_sen)
-- 
2.43.0


From 879068224e011e3663980ea5726f439a31ceeaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 60/78] fix: missing value of horizontal resolution is a model
 data error

---
 cloudnetpy/model_evaluation/products/model_products.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/model_evaluation/products/model_products.py b/cloudnetpy/model_evaluation/products/model_products.py
index 2e93476..e17ac71 100644
--- a/cloudnetpy/model_evaluation/products/model_products.py
+++ b/cloudnetpy/model_evaluation/products/model_products.py
@@ -203,7 +203,7 @@ class ModelManager(DataSource):
                 "It needs to be added to the model file."
             )
             raise ModelDataError(msg) from err
-        unique = np.unique(ma.masked_invalid(h_res).compressed())
+        unique = np.unique(ma.masked_invalid(ma.atleast_1d(h_res)).compressed())
         if unique.size != 1 or unique[0] <= 0:
             msg = (
                 f"Model '{self.model}' has invalid horizontal_resolution "
-- 
2.43.0


From a8710c11e5e73a3dfdd73cb43426a20f7c54ad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 61/78] fix: horizontal resolution of model along time is saved
 as single value

---
 cloudnetpy/model_evaluation/products/model_products.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/model_evaluation/products/model_products.py b/cloudnetpy/model_evaluation/products/model_products.py
index e17ac71..09b7ca3 100644
--- a/cloudnetpy/model_evaluation/products/model_products.py
+++ b/cloudnetpy/model_evaluation/products/model_products.py
@@ -56,6 +56,8 @@ class ModelManager(DataSource):
         self.date: list = []
         self.wind = self._calculate_wind_speed()
         self.resolution_h = self._get_horizontal_resolution()
+        # Single value also if the model file has it for each time step.
+        self.append_data(self.resolution_h, "horizontal_resolution")
 
     def _read_number_of_levels(self) -> int:
         """Number of vertical levels below the altitude limit.
-- 
2.43.0


From b0a327a8dc8b9f4ef26a5250dca0a67dc67418cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 62/78] fix: missing depolarisation stays missing where
 backscatter is kept

---
 cloudnetpy/instruments/ceilo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/ceilo.py b/cloudnetpy/instruments/ceilo.py
index b9520f2..e1a61ba 100644
--- a/cloudnetpy/instruments/ceilo.py
+++ b/cloudnetpy/instruments/ceilo.py
@@ -128,7 +128,9 @@ def ceilo2nc(
             ceilo_obj.data["beta"] = ma.masked_where(mask, ceilo_obj.data["beta_raw"])
             ceilo_obj.data["beta"][ceilo_obj.data["beta"] <= 0] = ma.masked
             if "depolarisation" in ceilo_obj.data:
-                ceilo_obj.data["depolarisation"].mask = ceilo_obj.data["beta"].mask
+                ceilo_obj.data["depolarisation"] = ma.masked_where(
+                    ceilo_obj.data["beta"].mask, ceilo_obj.data["depolarisation"]
+                )
     ceilo_obj.screen_depol()
     ceilo_obj.screen_invalid_values()
     ceilo_obj.screen_sunbeam()
-- 
2.43.0


From a3abab04e1e98b363875ef5fa56ea1f6d2cd2758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 63/78] fix: missing raw backscatter does not spread into
 smoothed backscatter

---
 cloudnetpy/instruments/ceilometer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/ceilometer.py b/cloudnetpy/instruments/ceilometer.py
index bcdebe4..5636dbf 100644
--- a/cloudnetpy/instruments/ceilometer.py
+++ b/cloudnetpy/instruments/ceilometer.py
@@ -69,11 +69,21 @@ class Ceilometer:
             instrument=self.instrument,
         )
         beta_raw = ma.copy(self.data["beta_raw"])
+        is_missing = ma.getmaskarray(ma.masked_invalid(beta_raw))
         cloud_ind, cloud_values, cloud_limit = _estimate_clouds_from_beta(beta)
         beta_raw[cloud_ind] = cloud_limit
         sigma = calc_sigma_units(self.data["time"], self.data["range"])
-        beta_raw_smooth = gaussian_filter(beta_raw, sigma)
+        if np.any(is_missing):
+            # Missing values must not spread to the neighbouring gates
+            beta_raw = np.where(is_missing, 0, ma.getdata(beta_raw))
+            weight = gaussian_filter((~is_missing).astype(float), sigma)
+            weight[is_missing] = 1
+            beta_raw_smooth = gaussian_filter(beta_raw, sigma) / weight
+        else:
+            beta_raw_smooth = gaussian_filter(beta_raw, sigma)
         beta_raw_smooth[cloud_ind] = cloud_values
+        if np.any(is_missing):
+            beta_raw_smooth = ma.masked_where(is_missing, beta_raw_smooth)
         return noisy_data.screen_data(
             beta_raw_smooth,
             is_smoothed=True,
-- 
2.43.0


From 211d63b59b219169c4e56cbb598c7e058fb8ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 64/78] fix: values of clouds below screened backscatter are
 range-corrected in smoothing

---
 cloudnetpy/instruments/ceilometer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/ceilometer.py b/cloudnetpy/instruments/ceilometer.py
index 5636dbf..7e58599 100644
--- a/cloudnetpy/instruments/ceilometer.py
+++ b/cloudnetpy/instruments/ceilometer.py
@@ -299,7 +299,9 @@ class NoisyData:
 
     def _calc_range_corrected(self, data: npt.NDArray) -> None:
         ind = self._get_altitude_ind()
-        data[:, ind] = data[:, ind] * self._get_range_squared()[ind]
+        # Screened values are corrected too because clouds are searched from them
+        values = ma.getdata(data)
+        values[:, ind] = values[:, ind] * self._get_range_squared()[ind]
 
     def _get_altitude_ind(self) -> tuple:
         alt_limit = 1e12  # All altitudes
-- 
2.43.0


From e991555f36994ede45d848ec5b73f003992b0494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 65/78] fix: missing value is not a run of negative values in
 lidar screening

---
 cloudnetpy/instruments/ceilometer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/ceilometer.py b/cloudnetpy/instruments/ceilometer.py
index 7e58599..10a94dd 100644
--- a/cloudnetpy/instruments/ceilometer.py
+++ b/cloudnetpy/instruments/ceilometer.py
@@ -242,7 +242,10 @@ class NoisyData:
         n_gates: int = 95,
         n_skip_lowest: int = 5,
     ) -> npt.NDArray:
-        negative_data = data[:, n_skip_lowest : n_gates + n_skip_lowest] < 0
+        negative_data = ma.filled(
+            data[:, n_skip_lowest : n_gates + n_skip_lowest] < 0,
+            fill_value=False,
+        )
         n_consequent_negatives = utils.cumsumr(negative_data, axis=1)
         time_indices, alt_indices = np.where(n_consequent_negatives > n_negatives)
         alt_indices += n_skip_lowest
-- 
2.43.0


From dce31d39591d89646cd6a205bdd2375074b00b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 66/78] fix: invalid lidar values are missing already in noise
 screening

---
 cloudnetpy/instruments/ceilo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudnetpy/instruments/ceilo.py b/cloudnetpy/instruments/ceilo.py
index e1a61ba..21f940c 100644
--- a/cloudnetpy/instruments/ceilo.py
+++ b/cloudnetpy/instruments/ceilo.py
@@ -101,6 +101,7 @@ def ceilo2nc(
     else:
         ceilo_obj.read_ceilometer_file(calibration_factor)
         ceilo_obj.check_beta_raw_shape()
+        ceilo_obj.screen_invalid_values()
         n_negatives = _get_n_negatives(ceilo_obj)
         ceilo_obj.data["beta"] = ceilo_obj.calc_screened_product(
             ceilo_obj.data["beta_raw"],
-- 
2.43.0


From d678e2a21e5b6619904cebacd04cdc3442d2caf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 67/78] fix: PollyXT channel of one file is not carried over to
 the next files

---
 cloudnetpy/instruments/pollyxt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/pollyxt.py b/cloudnetpy/instruments/pollyxt.py
index e3d80c8..27e39f8 100644
--- a/cloudnetpy/instruments/pollyxt.py
+++ b/cloudnetpy/instruments/pollyxt.py
@@ -5,6 +5,7 @@ import glob
 import logging
 from collections import Counter
 from collections.abc import Sequence
+from dataclasses import replace
 from fnmatch import fnmatch
 from os import PathLike
 from uuid import UUID
@@ -204,7 +205,9 @@ class PollyXt(Ceilometer):
                             if self.instrument is None:
                                 msg = "No instrument defined"
                                 raise RuntimeError(msg)
-                            self.instrument.wavelength = float(channel)
+                            self.instrument = replace(
+                                self.instrument, wavelength=float(channel)
+                            )
                         return channel
         msg = "No functional pollyXT backscatter channels found"
         raise ValidTimeStampError(msg)
-- 
2.43.0


From 238e3e861588faf394856af575fef604d033885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:31 +0000
Subject: [PATCH 68/78] fix: product is written beside categorize file in a
 folder of any name

---
 cloudnetpy/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index db40214..26643f8 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -718,7 +718,8 @@ def _plot_l3(
 
 
 def _process_cat_product(product: str, categorize_file: str) -> str:
-    output_file = categorize_file.replace("categorize", product)
+    path = Path(categorize_file)
+    output_file = str(path.with_name(path.name.replace("categorize", product)))
     module = importlib.import_module("cloudnetpy.products")
     getattr(module, f"generate_{product}")(categorize_file, output_file)
     logging.info("Processed %s: %s", product, output_file)
-- 
2.43.0


From bc99f5b4e14ad3b428f5d3e4150759c9bc2de162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:31 +0000
Subject: [PATCH 69/78] fix: MWR products are named like other products in
 command line

---
 cloudnetpy/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index 26643f8..886fcab 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -729,7 +729,7 @@ def _process_cat_product(product: str, categorize_file: str) -> str:
 def _process_mwrpy_product(
     product: str, mwr_l1c_file: str, args: argparse.Namespace
 ) -> str:
-    filename = f"{args.date}_{args.site}_{product}.nc"
+    filename = f"{args.date.replace('-', '')}_{args.site}_{product}.nc"
     output_file = _create_output_folder("geophysical", args) / filename
     module = importlib.import_module("cloudnetpy.products")
     getattr(module, f"generate_{product.replace('-', '_')}")(mwr_l1c_file, output_file)
-- 
2.43.0


From 423b256b5501d829f8b4514efe36cfea0055d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:31 +0000
Subject: [PATCH 70/78] fix: nothing is processed when only downloading in
 command line

---
 cloudnetpy/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index 886fcab..157813b 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -70,6 +70,9 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
             _plot(output_filepath, product, args)
             cat_files[product] = output_filepath
 
+    if args.dl:
+        return
+
     prod_sources = _get_product_sources(args.products, client)
 
     # Categorize based products
-- 
2.43.0


From fb918c7660a17d0ef09539837b43caa9ab9c86aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:31 +0000
Subject: [PATCH 71/78] fix: categorize uses the MWR file made in the same
 command

---
 cloudnetpy/cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index 157813b..aa0e7ce 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -237,9 +237,10 @@ def _process_categorize(
 
     # MWR runs after other downloads because its fallback chain may
     # try to download the same radar file fetched above.
-    mwr_key, mwr_path = fetch_mwr()
-    if mwr_path:
-        input_files[mwr_key] = mwr_path
+    if "mwr" not in input_files:
+        mwr_key, mwr_path = fetch_mwr()
+        if mwr_path:
+            input_files[mwr_key] = mwr_path
 
     if "model" not in input_files:
         logging.info("No model data available for this date.")
-- 
2.43.0


From 15188858520f40ea63f1b5766fccfb0309c3920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:31 +0000
Subject: [PATCH 72/78] fix: instrument preferred by PID is found also beside
 preferred identifiers

---
 cloudnetpy/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index aa0e7ce..4e7513e 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -468,7 +468,9 @@ def _get_source_instruments(
         if model is not None:
             models = [model]
         else:
-            models = [p for p in instrument_prefs.get(prod, []) if not _is_pid(p)]
+            models = instrument_prefs.get(prod, [])
+            if any(_is_pid(p) for p in models):
+                models = []
         all_possible = client.product(prod).source_instrument_ids
         if all_possible and (match := [m for m in models if m in all_possible]):
             source_instruments[prod] = match
-- 
2.43.0


From 11bdd26063008527e4bd3a7a0b8e86e78d84898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:31 +0000
Subject: [PATCH 73/78] fix: L3 products use the products made in the same
 command

---
 cloudnetpy/cli.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index 4e7513e..b787047 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -76,9 +76,12 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
     prod_sources = _get_product_sources(args.products, client)
 
     # Categorize based products
+    made: dict[str, str] = {}
     if "categorize" in args.products:
         cat_filepath = _process_categorize(cat_files, instrument_prefs, args, client)
         _plot(cat_filepath, "categorize", args)
+        if cat_filepath is not None:
+            made["categorize"] = cat_filepath
     else:
         cat_filepath = None
     cat_products = [p for p in prod_sources if "categorize" in prod_sources[p]]
@@ -90,6 +93,7 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
             break
         l2_filename = _process_cat_product(product, cat_filepath)
         _plot(l2_filename, product, args)
+        made[product] = l2_filename
 
     # MWR-L1c based products
     mwrpy_products = [p for p in prod_sources if "mwr-l1c" in prod_sources[p]]
@@ -117,7 +121,9 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
             model = args.model or DEFAULT_L3_MODEL
             if args.model is None:
                 logging.info("No model specified, using default '%s'", model)
-            l3_filepath = _process_l3_product(base_product, args, client, model)
+            l3_filepath = _process_l3_product(
+                base_product, args, client, model, made
+            )
             _plot_l3(l3_filepath, base_product, args)
 
 
@@ -143,11 +149,17 @@ def _process_epsilon_radar(
 
 
 def _process_l3_product(
-    product: str, args: argparse.Namespace, client: APIClient, model: str
+    product: str,
+    args: argparse.Namespace,
+    client: APIClient,
+    model: str,
+    made: dict[str, str],
 ) -> str | None:
     obs = product.removeprefix("l3-")
     source_product = L3_SOURCE_PRODUCTS[product]
-    product_file = _fetch_product(args, source_product, client)
+    product_file = made.get(source_product) or _fetch_product(
+        args, source_product, client
+    )
     if product_file is None:
         logging.info("No %s data available for %s", source_product, product)
         return None
-- 
2.43.0


From 90641eff2b8de7dc9715ea1c68047bdc1490e4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 74/78] fix: radar file of the same command is not replaced
 when searching for MWR data

---
 cloudnetpy/cli.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index b787047..23a2aca 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -228,7 +228,7 @@ def _process_categorize(
 
     def fetch_mwr() -> tuple[str, str | None]:
         try:
-            return "mwr", _fetch_mwr(args, client)
+            return "mwr", _fetch_mwr(args, client, input_files.get("radar"))
         except (CloudnetAPIError, KeyError, ValueError):
             logging.info("LWP data not available, continuing without it")
             return "mwr", None
@@ -272,7 +272,9 @@ def _process_categorize(
     return cat_filepath
 
 
-def _fetch_mwr(args: argparse.Namespace, client: APIClient) -> str | None:
+def _fetch_mwr(
+    args: argparse.Namespace, client: APIClient, radar_file: str | None
+) -> str | None:
     mwr_sources = [
         ("mwr-single", None),
         ("mwr", None),
@@ -280,7 +282,7 @@ def _fetch_mwr(args: argparse.Namespace, client: APIClient) -> str | None:
         ("radar", "rpg-fmcw-94"),
     ]
     for product, source in mwr_sources:
-        mwr = _fetch_product(args, product, client, source=source)
+        mwr = _fetch_product(args, product, client, source=source, keep=radar_file)
         if mwr:
             return mwr
     return None
@@ -595,7 +597,11 @@ def _get_unique_instruments(meta: list[RawMetadata]) -> list[Instrument]:
 
 
 def _fetch_product(
-    args: argparse.Namespace, product: str, client: APIClient, source: str | None = None
+    args: argparse.Namespace,
+    product: str,
+    client: APIClient,
+    source: str | None = None,
+    keep: str | None = None,
 ) -> str | None:
     meta = client.files(product_id=product, date=args.date, site_id=args.site)
     if source:
@@ -613,7 +619,8 @@ def _fetch_product(
         meta = [meta[0]]
     suffix = "geophysical" if "geophysical" in meta[0].product.type else "instrument"
     folder = _create_output_folder(suffix, args)
-    return _download_product_file(meta, folder, client, force=args.force_download)
+    force = args.force_download and str(folder / meta[0].filename) != keep
+    return _download_product_file(meta, folder, client, force=force)
 
 
 def _fetch_model(
-- 
2.43.0


From 5f85d5fb2303e526d1c96c15775e23524f62bbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:37 +0000
Subject: [PATCH 75/78] fix: galileo: clutter is weak and depolarised, and
 needs a depolarisation

---
 cloudnetpy/instruments/galileo.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/instruments/galileo.py b/cloudnetpy/instruments/galileo.py
index f7d89f6..d1ea24c 100644
--- a/cloudnetpy/instruments/galileo.py
+++ b/cloudnetpy/instruments/galileo.py
@@ -7,6 +7,7 @@ from tempfile import NamedTemporaryFile, TemporaryDirectory
 from uuid import UUID
 
 import numpy as np
+from numpy import ma
 
 from cloudnetpy import concat_lib, output, utils
 from cloudnetpy.instruments.instruments import GALILEO
@@ -131,10 +132,10 @@ class Galileo(ChilboltonRadar):
     def mask_clutter(self) -> None:
         # Only strong Z values are valid
         n_low_gates = 15
-        ind = np.where(self.data["Zh"][:, :n_low_gates] < -15) and np.where(
-            self.data["ldr"][:, :n_low_gates] > -5,
-        )
-        self.data["v"].mask_indices(ind)
+        is_weak = self.data["Zh"][:, :n_low_gates] < -15
+        is_depolarised = self.data["ldr"][:, :n_low_gates] > -5
+        is_clutter = ma.filled(is_weak & is_depolarised, fill_value=False)
+        self.data["v"].mask_indices(np.where(is_clutter))
 
     def screen_negative_altitudes(self) -> None:
         range_var = self.data["range"][:]
-- 
2.43.0


From ba54bfee9d06378d995a074db997dc7c37325ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:37 +0000
Subject: [PATCH 76/78] fix: copernicus: keep velocities where the width is
 missing

---
 cloudnetpy/instruments/copernicus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/copernicus.py b/cloudnetpy/instruments/copernicus.py
index d9e4af8..ccf58b0 100644
--- a/cloudnetpy/instruments/copernicus.py
+++ b/cloudnetpy/instruments/copernicus.py
@@ -8,6 +8,7 @@ from tempfile import TemporaryDirectory
 from uuid import UUID
 
 import numpy as np
+from numpy import ma
 
 from cloudnetpy import concat_lib, output, utils
 from cloudnetpy.instruments.instruments import COPERNICUS
@@ -163,7 +164,7 @@ class Copernicus(ChilboltonRadar):
         """
         thresholds = {"width": 3, "v": 9}
         for key, value in thresholds.items():
-            ind = np.where(np.abs(self.data[key][:]) > value)
+            ind = np.where(ma.filled(np.abs(self.data[key][:]) > value, fill_value=False))
             self.data["v"].mask_indices(ind)
 
     def screen_negative_ranges(self) -> None:
-- 
2.43.0


From 3f6c88af043511af40099219538140c7c5ed77e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:37 +0000
Subject: [PATCH 77/78] fix: nc_radar: keep the mask of data with one profile

---
 cloudnetpy/instruments/nc_radar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/nc_radar.py b/cloudnetpy/instruments/nc_radar.py
index 1ecbbd5..27ab51f 100644
--- a/cloudnetpy/instruments/nc_radar.py
+++ b/cloudnetpy/instruments/nc_radar.py
@@ -44,7 +44,7 @@ class NcRadar(DataSource, CloudnetInstrument):
             except KeyError:
                 logging.warning("Can not find variable %s from the input file", key)
                 continue
-            array = np.array(array) if utils.isscalar(array) else array
+            array = np.array(array) if np.ndim(array) == 0 else array
             array[~np.isfinite(array)] = ma.masked
             self.append_data(array, name)
 
-- 
2.43.0


From f574f0de1128ca99d3a619a78ad7daa5ebae58b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:37 +0000
Subject: [PATCH 78/78] fix: nc_radar: missing angles do not hide scanning next
 to them

---
 cloudnetpy/instruments/nc_radar.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/cloudnetpy/instruments/nc_radar.py b/cloudnetpy/instruments/nc_radar.py
index 27ab51f..27daca1 100644
--- a/cloudnetpy/instruments/nc_radar.py
+++ b/cloudnetpy/instruments/nc_radar.py
@@ -124,19 +124,20 @@ class NcRadar(DataSource, CloudnetInstrument):
             msg = "Less than two profiles with valid zenith / azimuth angles"
             raise ValidTimeStampError(msg)
 
-        elevation_diff = ma.diff(elevation, prepend=elevation[1])
-        is_stable = np.abs(elevation - 90) < elevation_threshold
-        is_stable &= np.abs(elevation_diff) < elevation_diff_threshold
+        # Masked values indicate missing scanning info
+        # (assume vertically pointing)
+        elevation_diff = ma.diff(elevation, prepend=elevation[1:2])
+        conditions = [
+            np.abs(elevation - 90) < elevation_threshold,
+            np.abs(elevation_diff) < elevation_diff_threshold,
+        ]
 
         if not ma.getmaskarray(azimuth).all():
-            azimuth_diff = ma.diff(azimuth, prepend=azimuth[1])
-            azimuth_diff[azimuth_diff > 180] -= 360
-            azimuth_diff[azimuth_diff < -180] += 360
-            is_stable &= np.abs(azimuth_diff) < azimuth_diff_threshold
+            azimuth_diff = ma.diff(azimuth, prepend=azimuth[1:2])
+            azimuth_diff = (azimuth_diff + 180) % 360 - 180
+            conditions.append(np.abs(azimuth_diff) < azimuth_diff_threshold)
 
-        # Masked values indicate missing scanning info
-        # (assume vertically pointing)
-        is_stable = np.array(ma.filled(is_stable, fill_value=True))
+        is_stable = np.all([ma.filled(x, fill_value=True) for x in conditions], axis=0)
         n_removed = np.count_nonzero(~is_stable)
 
         if n_removed >= len(elevation) - 1:
-- 
2.43.0

