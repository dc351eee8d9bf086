From fd61e3706fff4ff3563a1a158e3b1fa1b2b570a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 01/81] fix: honour the custom solid_angle of an optical
 element in its emission signal

---
 exorad/models/optics/opticalPath.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index 5dd2f76..4734f0f 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -259,6 +259,7 @@ class OpticalPath(Logger):
             self.debug(f"Propagating {el.name}")
             out_radiance = InstRadiance(wl_grid=wl, data=np.zeros(wl.size))
             out_radiance.position = el.position
+            out_radiance.angle = el.angle
             if el.temperature is not None:
                 # Calculate the surface radiance
                 out_radiance.data = surface_radiance(
-- 
2.43.0


From c8a0847fa24bf4e2afb51d25a062d88ac90c0689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 02/81] fix: record the slit width even when no emitting
 element precedes the slit

---
 exorad/models/optics/opticalPath.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index 4734f0f..710a7ab 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -254,6 +254,10 @@ class OpticalPath(Logger):
         opt_el = self.optical_element_dict
         opt_list = list(opt_el.keys())
         self.debug(f"Optics list: {opt_list}")
+        for el in opt_el.values():
+            if el.type == "slit":
+                # the slit disperses the foregrounds even if no element emits before it
+                self.slit_width = el.description["width"]["value"]
         for i, k in enumerate(opt_list):
             el = opt_el[k]
             self.debug(f"Propagating {el.name}")
-- 
2.43.0


From f499b1baa240d9fdcec8acede3c3b501408c170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 03/81] fix: attenuate each foreground by the transmission of
 the nearer ones

---
 exorad/models/instruments/instrument.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 1ca745d..dd99b09 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -191,14 +191,14 @@ class Instrument(Logger):
             radiance = copy.deepcopy(target.foreground[frg])
             self.debug("{} radiance . {}".format(frg, radiance.data))
 
-            if hasattr(frg, "transmission"):
-                frg.transmission.spectral_rebin(transmission.wl_grid)
-                transmission.data *= frg.transmission.data
-                self.debug("added {} transmission".format(frg))
-
             transmission.spectral_rebin(radiance.wl_grid)
             radiance.data *= transmission.data
 
+            if getattr(radiance, "transmission", None) is not None:
+                # filters the foregrounds posed before this one
+                transmission.data *= radiance.transmission
+                self.debug("added {} transmission".format(frg))
+
             # for other_el in foregrounds[i+1:]:
             #     if hasattr(target.foreground[other_el], 'transmission'):
             #         self.debug('passing through {}'.format(other_el))
-- 
2.43.0


From 6da134ad7f47d48d925744dc7eb1e100295871d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 04/81] fix: observe targets when the payload has no
 foregrounds

---
 exorad/tasks/targetHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index b1000ff..fe7f3b5 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -250,7 +250,7 @@ class ObserveTarget(Task):
                 target=target,
                 wl_range=(wl_min, wl_max),
             )
-        target = propagateForegroundLight(channels=channels, target=target)
+            target = propagateForegroundLight(channels=channels, target=target)
 
         target, sed = loadSource(
             target=target,
-- 
2.43.0


From 72a8b4c5f75f0c702824ab31d0435f3796ba5532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 05/81] fix: accept a payload that does not set
 ForceChannelWlEdge

---
 exorad/models/instruments/instrument.py   | 8 +++++++-
 exorad/models/instruments/photometer.py   | 2 +-
 exorad/models/instruments/spectrometer.py | 2 +-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index dd99b09..e44c578 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -263,7 +263,7 @@ class Instrument(Logger):
             self.table["RightBinEdge"],
         )
 
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_channel_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 self.table["Wavelength"]
@@ -371,6 +371,12 @@ class Instrument(Logger):
         wave_window = np.ones(wl.size)
         return qe.data, transmission.data, wave_window
 
+    def _force_channel_wl_edge(self):
+        # it is an optional key: the channel edges are not forced by default
+        return self.payload["optics"].get("ForceChannelWlEdge", {}).get(
+            "value", False
+        )
+
     def _add_data_to_built(self, name, data):
         self.built_instr[name] = data
 
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 4bdc5f2..03a1b40 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -138,7 +138,7 @@ class Photometer(Instrument):
         if "sky TR" in self.table.keys():
             out["foreground_transmission"] = self.table["sky TR"]
 
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_channel_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 wl
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index f57e861..8399335 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -329,7 +329,7 @@ class Spectrometer(Instrument):
         qe, transmission, wave_window = self._get_efficiency(wl, target)
         if "sky TR" in self.table.keys():
             out["foreground_transmission"] = self.table["sky TR"]
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_channel_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 wl
-- 
2.43.0


From d397715eb570348a5a8468da83e180eec23f1ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 06/81] fix: leave skipped targets out of the observed target
 list

---
 exorad/tasks/targetHandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index fe7f3b5..4032713 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -389,14 +389,16 @@ class ObserveTargetlist(Task):
                     repeat(out_dir),
                     repeat(debug),
                 ):
-                    outputDict[t_name] = output
+                    if output is not None:
+                        outputDict[t_name] = output
         else:
             outputDict = {}
             for target in targets:
                 t_name, output = pipeline_to_dict(
                     target, payload, channels, wl_range, plot, out_dir, debug
                 )
-                outputDict[t_name] = output
+                if output is not None:
+                    outputDict[t_name] = output
 
         self.set_output(outputDict)
 
-- 
2.43.0


From c8d236665c3d4fb20f639b85b1430fddbe07d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 07/81] fix: do not skip targets when plots are requested
 without an output directory

---
 exorad/tasks/targetHandler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 4032713..1625873 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -300,9 +300,10 @@ def pipeline_to_dict(
             matplotlib.use("Agg")
             plotter = Plotter(input_table=target.table)
             plotter.plot_table()
-            plotter.save_fig(
-                os.path.join(out_dir, "{}.png".format(target.name))
-            )
+            if out_dir is not None:
+                plotter.save_fig(
+                    os.path.join(out_dir, "{}.png".format(target.name))
+                )
             plt.close()
         return target.name, outputDict
     except:
-- 
2.43.0


From 5994e6942b4821aa2cfa9a9a5f4b6194dbd7cd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 08/81] fix: do not remove the payload file when it is also the
 output file

---
 exorad/exorad.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index 9c27b0d..65f52ab 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -61,7 +61,9 @@ def standard_pipeline(
 
     if output is not None:
         if replace:
-            if os.path.exists(output):
+            if os.path.exists(output) and not os.path.samefile(
+                options, output
+            ):
                 os.remove(output)
 
         out_dir = pathlib.Path(output).parent.absolute()
-- 
2.43.0


From 3141fc1f3185be1749ba56e66a23ce496615db0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 09/81] fix: fall back to the zodiacal factor when the map
 cannot be used

---
 exorad/models/foregrounds/zodiacalForeground.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/foregrounds/zodiacalForeground.py b/exorad/models/foregrounds/zodiacalForeground.py
index 0bacb83..8db5daa 100644
--- a/exorad/models/foregrounds/zodiacalForeground.py
+++ b/exorad/models/foregrounds/zodiacalForeground.py
@@ -51,7 +51,7 @@ class ZodiacalFrg(Logger):
                 A = self.zodiacal_fit_direction(coordinates, map_file)
             except (KeyError, OSError):
                 self.warning("zodiacal fit failed")
-                self._get_radiance(coordinates=None)
+                return self._get_radiance(coordinates=None)
 
         elif "zodiacFactor" in self.description:
             self.debug(" model used for zodiacal foreground")
-- 
2.43.0


From dab464be878941a6e6cf683bb29f116177728fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 10/81] fix: resample functions that are sparsely sampled or
 unsorted

---
 exorad/utils/exolib.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 0d0c66d..694898c 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -41,10 +41,6 @@ def rebin(x, xp, fp):
         )
         raise ValueError
 
-    idx = np.where(np.logical_and(xp > 0.9 * x.min(), xp < 1.1 * x.max()))[0]
-    xp = xp[idx]
-    fp = fp[idx]
-
     if not hasattr(fp, "unit"):
         logger.debug("No units found for fp. Forced to None")
         fp *= u.Unit()
@@ -62,20 +58,36 @@ def rebin(x, xp, fp):
         logger.debug("Nans found in new x array: removing it")
         x = np.delete(x, id)
 
+    # sort the sampled function
+    if np.any(np.diff(xp) < 0):
+        id = np.argsort(xp, kind="stable")
+        xp = xp[id]
+        fp = fp[id]
+
     # remove duplicates
-    while np.diff(xp).min() == 0:
+    while xp.size > 1 and np.diff(xp).min() == 0:
         logger.debug("duplicate found in input x array: removing it")
         id = np.argmin(np.diff(xp))
         xp = np.delete(xp, id)
         fp = np.delete(fp, id)
 
-    while np.diff(x).min() == 0:
+    while x.size > 1 and np.diff(x).min() == 0:
         logger.debug("duplicate found in new x array: removing it")
         id = np.argmin(np.diff(x))
         x = np.delete(x, id)
 
-    if np.diff(xp).max() < np.diff(x).min():
+    # the resampling method depends on the sampling inside the new grid range
+    idx = np.where(np.logical_and(xp > 0.9 * x.min(), xp < 1.1 * x.max()))[0]
+    xp_in = xp[idx]
+
+    if (
+        x.size > 1
+        and xp_in.size > 1
+        and np.diff(xp_in).max() < np.diff(x).min()
+    ):
         # Binning!
+        xp = xp_in
+        fp = fp[idx]
         logger.debug("binning")
         bin_x = 0.5 * (x[1:] + x[:-1])
         x0 = x[0] - (bin_x[0] - x[0]) / 2.0
-- 
2.43.0


From b528701214186435df88397229855d79d98259e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 11/81] fix: custom noise as a function of wavelength

---
 exorad/models/noise.py | 63 +++++++++++++-----------------------------
 1 file changed, 19 insertions(+), 44 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index a6f524d..0bccbf9 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -5,7 +5,7 @@ import numpy as np
 from astropy import units as u
 
 from exorad.models.signal import CustomSignal
-from exorad.models.signal import Signal
+from exorad.models.utils import get_wl_col_name
 
 logger = logging.getLogger("exorad.noise")
 
@@ -172,51 +172,26 @@ def photon_noise_variance(table, out):
 
 
 def add_custom_noise(custom, wl, out):
-    if "data" in custom:
-        col_name = [
-            col for col in custom["data"].keys() if "Wavelength" not in col
-        ]
-        custom_noise = Signal(
-            custom["data"]["Wavelength"], custom["data"][col_name]
-        )
-        custom_noise.spectral_rebin(wl)
-        out["{}_noise".format(col_name)] = custom_noise.data
-        logger.debug(
-            "{} added as custom noise :{}".format(col_name, custom_noise.data)
-        )
-        out["total_noise"] = np.sqrt(
-            out["total_noise"] * out["total_noise"]
-            + custom_noise.data * custom_noise.data
-        )
-
-    if isinstance(custom, OrderedDict):
-        for contrib in custom:
+    # repeated customNoise keywords are collected in an ordered dictionary
+    contributions = (
+        list(custom.values()) if isinstance(custom, OrderedDict) else [custom]
+    )
+    for contrib in contributions:
+        if "data" in contrib:
+            wl_colname = get_wl_col_name(contrib["data"])
+            name = [
+                col for col in contrib["data"].keys() if col != wl_colname
+            ][0]
+            noise = Noise(contrib["data"][wl_colname], contrib["data"][name])
+            noise.spectral_rebin(wl.to(noise.wl_grid.unit))
+            custom_noise = noise.data
+        else:
+            name = contrib["name"]["value"]
             custom_noise = (
-                custom[contrib]["value"]
-                * 1e-6
-                * np.ones(wl.size)
-                * u.hr**0.5
-            )
-            out[
-                "{}_noise".format(custom[contrib]["name"]["value"])
-            ] = custom_noise
-            logger.debug(
-                "{} added as custom noise :{}".format(
-                    custom[contrib]["name"]["value"], custom_noise
-                )
-            )
-            out["total_noise"] = np.sqrt(
-                out["total_noise"] * out["total_noise"]
-                + custom_noise * custom_noise
+                contrib["value"] * 1e-6 * np.ones(wl.size) * u.hr**0.5
             )
-    else:
-        custom_noise = custom["value"] * 1e-6 * np.ones(wl.size) * u.hr**0.5
-        out["{}_noise".format(custom["name"]["value"])] = custom_noise
-        logger.debug(
-            "{} added as custom noise :{}".format(
-                custom["name"]["value"], custom_noise
-            )
-        )
+        out["{}_noise".format(name)] = custom_noise
+        logger.debug("{} added as custom noise :{}".format(name, custom_noise))
         out["total_noise"] = np.sqrt(
             out["total_noise"] * out["total_noise"]
             + custom_noise * custom_noise
-- 
2.43.0


From 9afe9e34ef4526171ed2fab9d9f7fd900c7a4d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 12/81] fix: keep repeated keywords that have the same numeric
 value

---
 exorad/tasks/loadOptions.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 36d71a8..55c4fe6 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -115,14 +115,15 @@ class LoadOptions(Task):
             if ch.tag in root_dict:
                 # if an other instance of same tag exists, transform into a dict
                 attr = root_dict[ch.tag]
-                if isinstance(attr, OrderedDict):
-                    attr[value] = retval
-                else:
-                    if not isinstance(attr, str):
-                        dtmp = OrderedDict(
-                            [(attr["value"], attr), (value, retval)]
-                        )
-                        root_dict[ch.tag] = dtmp
+                if not isinstance(attr, OrderedDict):
+                    attr = OrderedDict([(attr.get("value"), attr)])
+                    root_dict[ch.tag] = attr
+                # equal numbers are still different instances of the same tag
+                key, n = value, 1
+                while key in attr and not isinstance(value, str):
+                    n += 1
+                    key = "{} ({})".format(value, n)
+                attr[key] = retval
             else:
                 # othewise, set new attr
                 root_dict[ch.tag] = retval
-- 
2.43.0


From 61cab47efb607b0af07822c6ba87908e633219bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 13/81] fix: parse payload elements that hold no text

---
 exorad/tasks/loadOptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 55c4fe6..67a66d5 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -76,7 +76,7 @@ class LoadOptions(Task):
             for key in list(ch.attrib.keys()):
                 retval[key] = ch.attrib[key]
 
-            value = compactString(ch.text)
+            value = compactString(ch.text or "")
             if (value is not None) and (value != ""):
                 try:
                     value = int(value)
-- 
2.43.0


From 53d69f9ddf4ef1bdd5dc9021c3ca490493afe5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 14/81] fix: read a configuration dictionary from an HDF5 file
 name

---
 exorad/output/hdf5/hdf5.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index 1f8c49f..c68250a 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -250,14 +250,17 @@ def load(input_group):
 
     Parameters
     ----------
-    input_group: h5py.Group
-        input HDF5 group
+    input_group: h5py.Group or str
+        input HDF5 group, or HDF5 file name
 
     Returns
     -------
     dict
         Dictionary representing the HDF5 group
     """
+    if isinstance(input_group, str):
+        with h5py.File(input_group, "r") as fd:
+            return load(fd)
     # Convert the HDF5 group into a dictionary recursively
     input_dict = hdf5_group_to_dict(input_group)
     input_dict = recursively_read_dict_contents(input_dict)
-- 
2.43.0


From 52926d06416dc2a09a2d2173d28d35180d8c9d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 15/81] fix: read back strings, units and ordered dictionaries
 stored in the HDF5 output

---
 exorad/output/hdf5/hdf5.py |  7 +++++++
 exorad/output/hdf5/util.py | 23 ++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index c68250a..031e0aa 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -60,6 +60,7 @@ from exorad import __title__
 from exorad import __url__
 from exorad import __version__
 from exorad.output.hdf5.util import hdf5_group_to_dict
+from exorad.output.hdf5.util import ORDER_KEY
 from exorad.output.hdf5.util import recursively_read_dict_contents
 from exorad.output.output import Output
 from exorad.output.output import OutputGroup
@@ -136,6 +137,9 @@ class HDF5OutputGroup(OutputGroup):
             for k, v in metadata.items():
                 ds.attrs[k] = v
 
+    def write_order(self, keys):
+        self._entry.attrs[ORDER_KEY] = [str(k) for k in keys]
+
     def write_quantity(self, quantity_name, quantity):
         if quantity_name == "value":
             self._entry.create_dataset(
@@ -237,6 +241,9 @@ class HDF5Output(Output):
                 entry = self.fd[str(group_name)]
         return HDF5OutputGroup(entry)
 
+    def write_order(self, keys):
+        HDF5OutputGroup(self.fd).write_order(keys)
+
     def close(self):
         if self.fd:
             self.fd.flush()
diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 3cdc912..6c6ac8f 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -1,3 +1,5 @@
+from collections import OrderedDict
+
 import astropy.units as u
 import h5py
 import numpy as np
@@ -10,6 +12,9 @@ from exorad.models.signal import Sed
 from exorad.models.signal import Signal
 signal = {"W / (m2 um)": Sed}
 
+# attribute of the HDF5 groups storing ordered dictionaries
+ORDER_KEY = "__ordered_keys__"
+
 
 def recursively_read_dict_contents(input_dict):
     """
@@ -33,7 +38,10 @@ def recursively_read_dict_contents(input_dict):
     #     time = input['time_grid']['value'] * u.Unit(input['time_grid']['unit'])
     #     input = signal[str(input['data']['unit'])](wl, data, time)
     if all(elem in new_keys for elem in ["value", "unit"]):
-        input_dict["value"] = input_dict["value"] * u.Unit(input_dict["unit"])
+        unit = input_dict["unit"]
+        if unit == "dimensionless":
+            unit = ""
+        input_dict["value"] = input_dict["value"] * u.Unit(unit)
 
     if any(".__table_column_meta__" in elem for elem in new_keys):
         table_keys = [
@@ -67,9 +75,20 @@ def hdf5_group_to_dict(h5_group):
         if isinstance(item, h5py.Dataset):
             # Convert dataset to numpy array and store
             result[key] = item[()]  # This reads the dataset into a numpy array
+            if isinstance(result[key], bytes):
+                result[key] = result[key].decode("utf-8")
         elif isinstance(item, h5py.Group):
             # Recurse into subgroups
             result[key] = hdf5_group_to_dict(item)
+    if ORDER_KEY in h5_group.attrs:
+        ordered = OrderedDict(
+            (key, result.pop(key))
+            for key in h5_group.attrs[ORDER_KEY]
+            if key in result
+        )
+        # what is stored beside the keys, as the tables metadata
+        ordered.update(result)
+        result = ordered
     return result
 
 
@@ -112,6 +131,8 @@ def recursively_save_dict_contents_to_output(output, dic):
             store_thing(output, key, item)
         except TypeError:
             raise ValueError("Cannot write %s type" % type(item))
+    if isinstance(dic, OrderedDict):
+        output.write_order(list(dic.keys()))
     return
 
 
-- 
2.43.0


From 08149877d334cc069fd2c5a9fac825e2662a30ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 16/81] fix: observe with a payload loaded from an HDF5 file

---
 exorad/models/instruments/instrument.py   | 20 +++++++++++++++-----
 exorad/tasks/instrumentHandler.py         | 14 +++++++++++---
 exorad/utils/diffuse_light_propagation.py | 12 ++++++++----
 exorad/utils/plotter.py                   |  6 ++++--
 4 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index e44c578..85e9e5d 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -65,7 +65,13 @@ class Instrument(Logger):
         it loads the instrument parameters already processed from a file
         """
         self.table = table
-        self.built_instr = built_instr
+        # quantities are stored as dictionaries
+        self.built_instr = {
+            key: item["value"]
+            if isinstance(item, dict) and set(item) == {"value", "unit"}
+            else item
+            for key, item in built_instr.items()
+        }
         self.loaded = True
         self.info("{} loaded".format(self.name))
 
@@ -347,15 +353,19 @@ class Instrument(Logger):
         #                         self.built_instr['transmission_data']['data'], left=0.0, right=0.0)
         # wave_window = np.ones(self.table['Wavelength'])
         qe = Signal(
-            self.built_instr["qe_data"]["wl_grid"]["value"]
-            * u.Unit(self.built_instr["qe_data"]["wl_grid"]["unit"]),
+            u.Quantity(
+                self.built_instr["qe_data"]["wl_grid"]["value"],
+                self.built_instr["qe_data"]["wl_grid"]["unit"],
+            ),
             self.built_instr["qe_data"]["data"]["value"],
         )
         qe.spectral_rebin(wl)
 
         transmission = Signal(
-            self.built_instr["transmission_data"]["wl_grid"]["value"]
-            * u.Unit(self.built_instr["transmission_data"]["wl_grid"]["unit"]),
+            u.Quantity(
+                self.built_instr["transmission_data"]["wl_grid"]["value"],
+                self.built_instr["transmission_data"]["wl_grid"]["unit"],
+            ),
             self.built_instr["transmission_data"]["data"]["value"],
         )
         transmission.spectral_rebin(wl)
diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index 6a440ce..b97a473 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -6,6 +6,7 @@ from .task import Task
 from exorad.models.instruments import Photometer
 from exorad.models.instruments import Spectrometer
 from exorad.output.hdf5 import load
+from exorad.utils.passVal import PassVal
 
 instruments = {"photometer": Photometer, "spectrometer": Spectrometer}
 
@@ -182,20 +183,27 @@ class LoadPayload(Task):
     def execute(self):
         payload_dir = self.get_task_param("input")["payload"]
         payload = load(payload_dir["payload description"])
+        if "working_R" in payload["common"]:
+            PassVal.working_R = payload["common"]["working_R"]["value"]
         channels_dir = payload_dir["channels"]
         channels = {}
-        for ch in channels_dir.keys():
+        names = list(channels_dir.keys())
+        if isinstance(payload["channel"], OrderedDict):
+            names.sort(key=list(payload["channel"].keys()).index)
+        for ch in names:
             ch_dir = channels_dir[ch]
             description = load(ch_dir["description"])
             instrument = instruments[
-                description["channelClass"]["value"].lower().decode("utf-8")
+                description["channelClass"]["value"].lower()
             ]
             channels[ch] = instrument(
                 name=ch,
                 description=description,
                 payload=payload,
             )
-            table = read_table_hdf5(ch_dir, path=ch)
+            table = read_table_hdf5(
+                ch_dir, path=ch, character_as_bytes=False
+            )
             built_instr = load(ch_dir["built_instr"])
             channels[ch].load(table, built_instr)
         self.debug("channels loaded: {}".format(channels))
diff --git a/exorad/utils/diffuse_light_propagation.py b/exorad/utils/diffuse_light_propagation.py
index fd6cda0..30f11e6 100644
--- a/exorad/utils/diffuse_light_propagation.py
+++ b/exorad/utils/diffuse_light_propagation.py
@@ -28,15 +28,19 @@ def prepare(ch_table, ch_built_instr, description):
         * description["detector"]["delta_pix"]["value"]
     ).to(u.m**2)
     qe = Signal(
-        ch_built_instr["qe_data"]["wl_grid"]["value"]
-        * u.Unit(ch_built_instr["qe_data"]["wl_grid"]["unit"]),
+        u.Quantity(
+            ch_built_instr["qe_data"]["wl_grid"]["value"],
+            ch_built_instr["qe_data"]["wl_grid"]["unit"],
+        ),
         ch_built_instr["qe_data"]["data"]["value"],
     )
     logger.debug("wl qe : {}".format(qe.wl_grid))
 
     transmission = Signal(
-        ch_built_instr["transmission_data"]["wl_grid"]["value"]
-        * u.Unit(ch_built_instr["transmission_data"]["wl_grid"]["unit"]),
+        u.Quantity(
+            ch_built_instr["transmission_data"]["wl_grid"]["value"],
+            ch_built_instr["transmission_data"]["wl_grid"]["unit"],
+        ),
         ch_built_instr["transmission_data"]["data"]["value"],
     )
 
diff --git a/exorad/utils/plotter.py b/exorad/utils/plotter.py
index 85ae564..8e13b5d 100644
--- a/exorad/utils/plotter.py
+++ b/exorad/utils/plotter.py
@@ -126,8 +126,10 @@ class Plotter(Logger):
                             "{}_data".format(key)
                         ]
                         sig = Signal(
-                            wl_grid=data["wl_grid"]["value"]
-                            * u.Unit(data["wl_grid"]["unit"]),
+                            wl_grid=u.Quantity(
+                                data["wl_grid"]["value"],
+                                data["wl_grid"]["unit"],
+                            ),
                             data=data["data"]["value"],
                         )
                         ax.plot(
-- 
2.43.0


From 4ba7153a27833b112946557bed975ed52cf419c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 17/81] fix: do not store the sky transmission of a target in
 the channel table

---
 exorad/models/instruments/instrument.py   | 13 ++++++++++---
 exorad/models/instruments/photometer.py   |  4 ++--
 exorad/models/instruments/spectrometer.py |  4 ++--
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 85e9e5d..d08f327 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -372,15 +372,22 @@ class Instrument(Logger):
 
         if hasattr(target, "skyTransmission"):
             target_transmission = copy.deepcopy(target.skyTransmission)
-            self.table["sky TR"], _ = self._get_transmission(
-                target_transmission.wl_grid, target_transmission.data
-            )
             target_transmission.spectral_rebin(wl)
             transmission.data *= target_transmission.data
 
         wave_window = np.ones(wl.size)
         return qe.data, transmission.data, wave_window
 
+    def _get_sky_transmission(self, target):
+        """
+        foregrounds transmission in the spectral bins
+        """
+        sky_transmission = copy.deepcopy(target.skyTransmission)
+        transmission, _ = self._get_transmission(
+            sky_transmission.wl_grid, sky_transmission.data
+        )
+        return transmission
+
     def _force_channel_wl_edge(self):
         # it is an optional key: the channel edges are not forced by default
         return self.payload["optics"].get("ForceChannelWlEdge", {}).get(
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 03a1b40..1c1ffba 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -135,8 +135,8 @@ class Photometer(Instrument):
         out = QTable()
         wl = target.star.sed.wl_grid
         qe, transmission, wave_window = self._get_efficiency(wl, target)
-        if "sky TR" in self.table.keys():
-            out["foreground_transmission"] = self.table["sky TR"]
+        if hasattr(target, "skyTransmission"):
+            out["foreground_transmission"] = self._get_sky_transmission(target)
 
         if self._force_channel_wl_edge():
             self.debug("force channel wl edge enabled")
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 8399335..7c562bf 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -327,8 +327,8 @@ class Spectrometer(Instrument):
         out = QTable()
         wl = target.star.sed.wl_grid
         qe, transmission, wave_window = self._get_efficiency(wl, target)
-        if "sky TR" in self.table.keys():
-            out["foreground_transmission"] = self.table["sky TR"]
+        if hasattr(target, "skyTransmission"):
+            out["foreground_transmission"] = self._get_sky_transmission(target)
         if self._force_channel_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
-- 
2.43.0


From 54b460dc2c7e0bbda6947eef7d3fd0e79fb819e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 18/81] fix: merge tables without changing the input ones

---
 exorad/utils/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index d6ff10b..2d8e971 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -79,6 +79,8 @@ def to_dict(obj, classkey=None):
 def vstack_tables(table_list):
     table = False
     for tab in table_list:
+        # the input tables are left as they are
+        tab = tab.copy()
         if not table:
             table = tab
         else:
-- 
2.43.0


From 8b7910ddb4307914d5328332f9c49d8612614126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 19/81] fix: observe a target again without accumulating its
 foregrounds

---
 exorad/tasks/targetHandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 1625873..126dfa0 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -242,6 +242,10 @@ class ObserveTarget(Task):
         propagateForegroundLight = PropagateForegroundLight()
         estimateNoise = EstimateNoise()
 
+        # forget the foregrounds estimated in previous observations
+        for attr in ["foreground", "skyTransmission"]:
+            target.__dict__.pop(attr, None)
+
         target = prepareTarget(target=target, channels=channels)
 
         if "foreground" in payload["common"]:
-- 
2.43.0


From 4ec4f2a010ea296d76c9d294398d75622e4b48c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 20/81] fix: use the working resolution of the payload in use

---
 exorad/models/instruments/instrument.py |  1 +
 exorad/tasks/instrumentHandler.py       |  3 ---
 exorad/tasks/targetHandler.py           |  3 +++
 exorad/utils/passVal.py                 | 14 +++++++++++++-
 4 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index d08f327..5954c20 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -101,6 +101,7 @@ class Instrument(Logger):
             # you cannot load the description and run it again because it's not an ordered dictionary anymore
             raise ValueError("You cannot build a loaded instrument")
         else:
+            PassVal.load(self.payload)
             self.builder()
             self.build_optical_path()
 
diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index b97a473..d3309b1 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -6,7 +6,6 @@ from .task import Task
 from exorad.models.instruments import Photometer
 from exorad.models.instruments import Spectrometer
 from exorad.output.hdf5 import load
-from exorad.utils.passVal import PassVal
 
 instruments = {"photometer": Photometer, "spectrometer": Spectrometer}
 
@@ -183,8 +182,6 @@ class LoadPayload(Task):
     def execute(self):
         payload_dir = self.get_task_param("input")["payload"]
         payload = load(payload_dir["payload description"])
-        if "working_R" in payload["common"]:
-            PassVal.working_R = payload["common"]["working_R"]["value"]
         channels_dir = payload_dir["channels"]
         channels = {}
         names = list(channels_dir.keys())
diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 126dfa0..81b629a 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -9,6 +9,7 @@ from .task import Task
 from exorad.__version__ import __version__
 from exorad.log import disableLogging
 from exorad.log import enableLogging
+from exorad.utils.passVal import PassVal
 
 
 class LoadTargetList(Task):
@@ -242,6 +243,8 @@ class ObserveTarget(Task):
         propagateForegroundLight = PropagateForegroundLight()
         estimateNoise = EstimateNoise()
 
+        PassVal.load(payload)
+
         # forget the foregrounds estimated in previous observations
         for attr in ["foreground", "skyTransmission"]:
             target.__dict__.pop(attr, None)
diff --git a/exorad/utils/passVal.py b/exorad/utils/passVal.py
index 50278e3..c52018b 100644
--- a/exorad/utils/passVal.py
+++ b/exorad/utils/passVal.py
@@ -27,7 +27,19 @@ class PassValInit(metaclass=SingletonMeta):
     Class used to propagate values through the code.
     """
 
-    _working_R = 6000
+    _default_working_R = 6000
+    _working_R = _default_working_R
+
+    def load(self, payload):
+        """
+        It sets the values for the given payload
+        """
+        if payload and "common" in payload:
+            self._working_R = (
+                payload["common"]
+                .get("working_R", {})
+                .get("value", self._default_working_R)
+            )
 
     @property
     def working_R(self):
-- 
2.43.0


From 553711335a1cc988dd96b180757e4be604bb53d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 21/81] fix: convert the channel wavelengths to micron instead
 of assuming them

---
 exorad/models/instruments/instrument.py   |  8 +++--
 exorad/models/instruments/photometer.py   | 18 +++++------
 exorad/models/instruments/spectrometer.py | 38 ++++++++++++++---------
 3 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 5954c20..9ff209c 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -115,10 +115,14 @@ class Instrument(Logger):
         wl_grid = (
             np.logspace(
                 np.log10(
-                    self.description["detector"]["wl_min"]["value"].value
+                    self.description["detector"]["wl_min"]["value"]
+                    .to(u.um)
+                    .value
                 ),
                 np.log10(
-                    self.description["detector"]["cut_off"]["value"].value
+                    self.description["detector"]["cut_off"]["value"]
+                    .to(u.um)
+                    .value
                 ),
                 PassVal.working_R,
             )
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 1c1ffba..c4bab64 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -16,14 +16,10 @@ class Photometer(Instrument):
     """
 
     def _wavelength_table(self):
-        wl_c = 0.5 * (
-            self.description["wl_min"]["value"]
-            + self.description["wl_max"]["value"]
-        )
-        bandwidth = (
-            self.description["wl_max"]["value"]
-            - self.description["wl_min"]["value"]
-        )
+        wl_min = self.description["wl_min"]["value"].to(u.um)
+        wl_max = self.description["wl_max"]["value"].to(u.um)
+        wl_c = 0.5 * (wl_min + wl_max)
+        bandwidth = wl_max - wl_min
         left_bin_edge = wl_c - 0.5 * bandwidth
         right_bin_edge = wl_c + 0.5 * bandwidth
         self.table["chName"] = [self.name]
@@ -101,7 +97,7 @@ class Photometer(Instrument):
                     * self.description["Fnum_y"]["value"]
                     * self.table["Wavelength"]
                     / self.description["detector"]["delta_pix"]["value"] ** 2
-                )
+                ).to("")
         elif "EnE" in self.description["aperture"].keys():
             if psf_format == "pixel_based":
                 aper_radius = find_aperture_radius(
@@ -128,7 +124,7 @@ class Photometer(Instrument):
                     * self.description["Fnum_y"]["value"]
                     * self.table["Wavelength"]
                     / self.description["detector"]["delta_pix"]["value"] ** 2
-                )
+                ).to("")
         return window_size_px
 
     def propagate_target(self, target):
@@ -170,7 +166,7 @@ class Photometer(Instrument):
                 x=target.star.sed.wl_grid,
             ).si
             * u.count
-        )
+        ).to(u.count / u.s)
         out["starSignal"] = [star_signal.value] * star_signal.unit
         self.debug("star signal : {}".format(out["starSignal"]))
 
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 7c562bf..c8137ee 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -28,6 +28,9 @@ class Spectrometer(Instrument):
             self.warning("Channel targetR missing: native R is assumed")
             self.description["targetR"] = {"value": "native"}
 
+        wl_min = self.description["wl_min"]["value"].to(u.um)
+        wl_max = self.description["wl_max"]["value"].to(u.um)
+
         # define the wavelength grid
         if "value" in self.description["targetR"].keys():
             self.debug(
@@ -50,17 +53,14 @@ class Spectrometer(Instrument):
             else:
                 number_of_spectral_bins = (
                     np.ceil(
-                        np.log(
-                            self.description["wl_max"]["value"]
-                            / self.description["wl_min"]["value"]
-                        )
+                        np.log(wl_max / wl_min)
                         / np.log(
                             1.0 + 1.0 / self.description["targetR"]["value"]
                         )
                     )
                     + 1
                 )
-                wl_bin = self.description["wl_min"]["value"] * (
+                wl_bin = wl_min * (
                     1.0 + 1.0 / self.description["targetR"]["value"]
                 ) ** np.arange(number_of_spectral_bins)
                 wl_bin_c = 0.5 * (wl_bin[0:-1] + wl_bin[1:])
@@ -71,19 +71,18 @@ class Spectrometer(Instrument):
                 self.description["targetR"]["data"]["value"], sep="\t"
             )
             get_res = interp1d(res_data["W"], res_data["R"])
-            w1 = self.description["wl_min"]["value"].value
+            w1 = wl_min.value
             w2 = w1
             wl_bin = np.array([w1])
-            while w2 < self.description["wl_max"]["value"].value:
+            while w2 < wl_max.value:
                 w1 = w2
                 res = get_res(w1)
                 w2 = np.round((w1 + w1 / res), 4)
                 wl_bin = np.append(wl_bin, w2)
             if (
-                self.description["wl_max"]["value"].value - wl_bin[-2]
-                < (wl_bin[-2] - wl_bin[-3]) / 2.0
+                wl_max.value - wl_bin[-2] < (wl_bin[-2] - wl_bin[-3]) / 2.0
             ):  # remove small bin at end of channel
-                wl_bin[-2] = self.description["wl_max"]["value"].value
+                wl_bin[-2] = wl_max.value
                 wl_bin = wl_bin[:-1]
             wl_bin_c = (
                 (np.array(wl_bin[:-1]) + np.array(wl_bin[1:])) / 2 * u.micron
@@ -140,11 +139,19 @@ class Spectrometer(Instrument):
         )
 
         first_pixel = (
-            wl_sol_func_reverse(self.description["wl_min"]["value"])
+            wl_sol_func_reverse(
+                self.description["wl_min"]["value"].to(
+                    wl_solution_data.wl_grid.unit
+                )
+            )
             * wl_solution_data.data.unit
         )
         last_pixel = (
-            wl_sol_func_reverse(self.description["wl_max"]["value"])
+            wl_sol_func_reverse(
+                self.description["wl_max"]["value"].to(
+                    wl_solution_data.wl_grid.unit
+                )
+            )
             * wl_solution_data.data.unit
         )
         self.debug(
@@ -177,7 +184,7 @@ class Spectrometer(Instrument):
                 wl_sol_func(coord_pix_center - 0.5 * delta)
                 - wl_sol_func(coord_pix_center + 0.5 * delta)
             )
-            * delta.unit
+            * wl_solution_data.wl_grid.unit
         )
         self._add_data_to_built("pixel_bandwidth", pixel_bandwidth)
 
@@ -251,7 +258,10 @@ class Spectrometer(Instrument):
             # todo define spatial apertures
             self.debug("Encircle energy solution found")
             EncE_sol = interp1d(
-                self.description["EncESolution"]["data"]["Wavelength"],
+                Signal(
+                    self.description["EncESolution"]["data"]["Wavelength"],
+                    self.description["EncESolution"]["data"]["EE"],
+                ).wl_grid,
                 self.description["EncESolution"]["data"]["EE"],
                 assume_sorted=False,
                 fill_value="extrapolate",
-- 
2.43.0


From e17d02ba43b25f24609d0172e4891a713ee40214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 22/81] fix: convert tabulated wavelengths, source range and
 read frequency from the units they are given in

---
 exorad/models/noise.py                 |  6 +++++-
 exorad/models/optics/opticalElement.py | 19 +++++++++++++++++--
 exorad/models/signal.py                |  3 +++
 exorad/tasks/loadSource.py             |  1 +
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index 0bccbf9..c2ef70d 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -69,7 +69,11 @@ def multiaccum(channel, t_frame):
     float
         shot noise gain
     """
-    nRead = np.floor(t_frame * channel["detector"]["freqNDR"]["value"])
+    nRead = np.floor(
+        u.Quantity(t_frame * channel["detector"]["freqNDR"]["value"])
+        .to(u.dimensionless_unscaled)
+        .value
+    )
 
     if "multiaccumM" in channel["detector"]:
         m = channel["detector"]["multiaccumM"]["value"]
diff --git a/exorad/models/optics/opticalElement.py b/exorad/models/optics/opticalElement.py
index dccbb1e..19d8e79 100644
--- a/exorad/models/optics/opticalElement.py
+++ b/exorad/models/optics/opticalElement.py
@@ -137,6 +137,21 @@ class OpticalElement(Logger):
         else:
             return None
 
+    def _get_data_wl(self, wl_colname):
+        """
+        Retrieve the wavelengths of the data table in the units of the wavelength
+        grid. If the column has no units, it is assumed to use those of the grid.
+
+        Returns
+        -------
+        wl : array_like
+            Wavelengths at which the data are sampled.
+        """
+        wl = self.description["data"][wl_colname]
+        if getattr(wl, "unit", None) is not None and hasattr(self.wl, "unit"):
+            wl = u.Quantity(wl).to(self.wl.unit)
+        return wl
+
     def _get_transmission(self):
         """
         Calculate the transmission of the optical element over the wavelength grid.
@@ -183,7 +198,7 @@ class OpticalElement(Logger):
             )
             # Create an interpolation function for transmission
             tr_func = interp1d(
-                self.description["data"][wl_colname],
+                self._get_data_wl(wl_colname),
                 self.description["data"][colname],
                 assume_sorted=False,
                 fill_value=0.0,
@@ -268,7 +283,7 @@ class OpticalElement(Logger):
 
             # Create an interpolation function for emissivity
             em_func = interp1d(
-                self.description["data"][wl_colname],
+                self._get_data_wl(wl_colname),
                 self.description["data"][em_colname],
                 assume_sorted=False,
                 fill_value=0.0,
diff --git a/exorad/models/signal.py b/exorad/models/signal.py
index a5a7706..f29861f 100644
--- a/exorad/models/signal.py
+++ b/exorad/models/signal.py
@@ -96,6 +96,9 @@ class Signal(Logger):
             if it cannot convert the original units into the desired ones
 
         """
+        if getattr(quantity, "unit", None) is not None:
+            # table columns with units are not Quantities
+            quantity = u.Quantity(quantity)
         if isinstance(quantity, u.Quantity):
             if quantity.unit != units:
                 try:
diff --git a/exorad/tasks/loadSource.py b/exorad/tasks/loadSource.py
index 0e6d14a..664c463 100644
--- a/exorad/tasks/loadSource.py
+++ b/exorad/tasks/loadSource.py
@@ -61,6 +61,7 @@ class LoadSource(Task):
             self.debug("wavelength unit not found: micron assumed")
             wl_min *= u.um
             wl_max *= u.um
+        wl_min, wl_max = wl_min.to(u.um), wl_max.to(u.um)
 
         wl_grid = (
             np.logspace(
-- 
2.43.0


From 88626f0ec639cceeae799e83a7f1506877924db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 23/81] fix: read comma decimals in MRS target lists

---
 exorad/models/targetlist.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 666c2ca..174b7bb 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -267,19 +267,17 @@ class CSVTargetListMRS(BaseTargetList):
                 )
             else:
                 units.append(None)
+        keys = self.star_keys()
         dat = []
         for i in range(len(self.tmpTab[star_k])):
             val = list(self.tmpTab[star_k][i])
             for n in range(len(val)):
-                if isinstance(val[n], str):
-                    if (
-                        "," in val[n]
-                    ):  # for some reason, comma are used instead of dots sometimes
-                        val[n] = val[n].replace(",", ".")
+                if isinstance(val[n], str) and keys[n] != "name":
+                    # for some reason, comma are used instead of dots sometimes
                     try:
-                        float(val[n])
+                        val[n] = float(val[n].replace(",", "."))
                     except ValueError:
-                        val[n]
+                        pass
                 if units[n] is not None:
                     val[n] = val[n] * units[n]
             dat.append([str(x) if isinstance(x, np.str_) else x for x in val])
@@ -316,19 +314,17 @@ class CSVTargetListMRS(BaseTargetList):
                 )
             else:
                 units.append(None)
+        keys = self.planet_keys()
         dat = []
         for i in range(len(self.tmpTab[planet_k])):
             val = list(self.tmpTab[planet_k][i])
             for n in range(len(val)):
-                if isinstance(val[n], str):
-                    if (
-                        "," in val[n]
-                    ):  # for some reason, comma are used instead of dots sometimes
-                        val[n] = val[n].replace(",", ".")
+                if isinstance(val[n], str) and keys[n] != "name":
+                    # for some reason, comma are used instead of dots sometimes
                     try:
-                        float(val[n])
+                        val[n] = float(val[n].replace(",", "."))
                     except ValueError:
-                        val[n]
+                        pass
                 if units[n] is not None:
                     val[n] = val[n] * units[n]
             dat.append([str(x) if isinstance(x, np.str_) else x for x in val])
-- 
2.43.0


From a7972486e4456ad268a290c88aa8458250df3d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 24/81] fix: search targets in lists without planets

---
 exorad/models/targetlist.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 174b7bb..a36a2b3 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -94,9 +94,14 @@ class BaseTargetList(Logger):
         returnList = []
 
         for target in self.target:
-            if re.search(
-                searchName, compactString(str(target.star.name))
-            ) or re.search(searchName, compactString(str(target.planet.name))):
+            names = [target.star.name]
+            if hasattr(target, "planet"):
+                # planets are optional
+                names.append(target.planet.name)
+            if any(
+                re.search(searchName, compactString(str(name)))
+                for name in names
+            ):
                 returnList.append(target)
 
         return returnList
@@ -436,9 +441,14 @@ class OldExcelTargetList(Logger):
         returnList = []
 
         for target in self.target:
-            if re.search(
-                searchName, compactString(str(target.star.name))
-            ) or re.search(searchName, compactString(str(target.planet.name))):
+            names = [target.star.name]
+            if hasattr(target, "planet"):
+                # planets are optional
+                names.append(target.planet.name)
+            if any(
+                re.search(searchName, compactString(str(name)))
+                for name in names
+            ):
                 returnList.append(target)
 
         return returnList
-- 
2.43.0


From 1f1812d2699c9723a4a905ef32540cbb1ffc61ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 25/81] fix: apply the wavelength range of an optical element
 however its transmission is given

---
 exorad/models/optics/opticalElement.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/exorad/models/optics/opticalElement.py b/exorad/models/optics/opticalElement.py
index 19d8e79..c9b0f9a 100644
--- a/exorad/models/optics/opticalElement.py
+++ b/exorad/models/optics/opticalElement.py
@@ -224,21 +224,21 @@ class OpticalElement(Logger):
                 self.debug(
                     f"Reflectivity keyword found for transmission for {self.name}"
                 )
-            # Apply wavelength lower bound if specified
-            if "wl_min" in self.description:
-                wl_min = self.description["wl_min"]["value"].to(self.wl.unit)
-                self.debug(f"Transmission lower boundary at {wl_min}")
-                idx = np.where(self.wl < wl_min)
-                transmission[idx] = 0.0
-            # Apply wavelength upper bound if specified
-            if "wl_max" in self.description:
-                wl_max = self.description["wl_max"]["value"].to(self.wl.unit)
-                self.debug(f"Transmission upper boundary at {wl_max}")
-                idx = np.where(self.wl > wl_max)
-                transmission[idx] = 0.0
         else:
             # Default transmission is 1 (no attenuation)
             transmission = np.ones(self.wl.size)
+        # Apply wavelength lower bound if specified
+        if "wl_min" in self.description:
+            wl_min = self.description["wl_min"]["value"].to(self.wl.unit)
+            self.debug(f"Transmission lower boundary at {wl_min}")
+            idx = np.where(self.wl < wl_min)
+            transmission[idx] = 0.0
+        # Apply wavelength upper bound if specified
+        if "wl_max" in self.description:
+            wl_max = self.description["wl_max"]["value"].to(self.wl.unit)
+            self.debug(f"Transmission upper boundary at {wl_max}")
+            idx = np.where(self.wl > wl_max)
+            transmission[idx] = 0.0
         self.debug(f"Transmission: {transmission}")
         return transmission
 
-- 
2.43.0


From 605ce487c173e8faad39f2e952ef30a8c00e7ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 26/81] fix: do not search for ever for apertures enclosing 98%
 or more of the energy

---
 exorad/utils/exolib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 694898c..e7af4dc 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -510,7 +510,9 @@ def find_aperture_radius(ima, eec, Fnum_x, Fnum_y, wavelength):
     """
     last_enc, i = 0, 0
     rs, enc = [], []
-    while last_enc < (eec + 0.02):
+    # the encircled energy cannot exceed the total one
+    max_enc = min(eec + 0.02, 1.0 - 1.0e-9)
+    while last_enc < max_enc:
         i += 1
         rs += [i]
         enc += [encircled_energy(i, ima, Fnum_x, Fnum_y, wavelength)]
-- 
2.43.0


From b062d25b1e81abb495cab8ddc33b546854bfa8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 27/81] fix: merge channels whose window sizes are all given in
 pixels

---
 exorad/models/instruments/photometer.py   | 2 +-
 exorad/models/instruments/spectrometer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index c4bab64..da7237a 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -79,7 +79,7 @@ class Photometer(Instrument):
         window_size_px = self._windows_size(prf, psf_format)
         self.debug("window size : {}".format(window_size_px))
         self._add_data_to_built("window_size_px", window_size_px)
-        self.table["WindowSize"] = window_size_px
+        self.table["WindowSize"] = u.Quantity(window_size_px)
 
         self._add_data_to_built("table", self.table)
 
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index c8137ee..46bea92 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -330,7 +330,7 @@ class Spectrometer(Instrument):
         self._add_data_to_built("window_spectral_width", window_spectral_width)
         self._add_data_to_built("window_spatial_width", window_spatial_width)
         self._add_data_to_built("window_size_px", window_size_px)
-        self.table["WindowSize"] = window_size_px
+        self.table["WindowSize"] = u.Quantity(window_size_px)
         self.debug("window size : {}".format(window_size_px))
 
     def propagate_target(self, target):
-- 
2.43.0


From df0bbf6bdff82cd52a6d030cf2f8b20f8382af75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 28/81] fix: use the zodiacal map entry nearest to the target
 on the sky

---
 exorad/models/foregrounds/zodiacalForeground.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/exorad/models/foregrounds/zodiacalForeground.py b/exorad/models/foregrounds/zodiacalForeground.py
index 8db5daa..8d09840 100644
--- a/exorad/models/foregrounds/zodiacalForeground.py
+++ b/exorad/models/foregrounds/zodiacalForeground.py
@@ -81,6 +81,7 @@ class ZodiacalFrg(Logger):
         It's based on Kelsall et al. 1998 model
         """
         import os
+        from astropy.coordinates import angular_separation
         from astropy.io.misc.hdf5 import read_table_hdf5
         import numpy as np
         from pathlib import Path
@@ -118,9 +119,12 @@ class ZodiacalFrg(Logger):
         try:
             zodi_table = read_table_hdf5(zodi_map_file)
             self.debug(zodi_table)
-            distance = (zodi_table["ra_icrs"] * u.deg - ra_input) ** 2 + (
-                zodi_table["dec_icrs"] * u.deg - dec_input
-            ) ** 2
+            distance = angular_separation(
+                ra_input,
+                dec_input,
+                zodi_table["ra_icrs"] * u.deg,
+                zodi_table["dec_icrs"] * u.deg,
+            )
             idx = np.argmin(distance)
             self.debug("selected line {}".format(idx))
             self.debug(zodi_table[idx])
-- 
2.43.0


From 2a71e537ccc0e4e1e4d8fb57b7189fdf37c6cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 29/81] fix: luminosity of custom spectra listed in decreasing
 wavelength

---
 exorad/models/source.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exorad/models/source.py b/exorad/models/source.py
index f8b2427..c048670 100755
--- a/exorad/models/source.py
+++ b/exorad/models/source.py
@@ -253,6 +253,9 @@ class CustomSed(Logger):
         ph = ascii.read(fname, format="ecsv")
         ph_wl = ph["Wavelength"].data * ph["Wavelength"].unit
         ph_sed = ph["Sed"].data * ph["Sed"].unit
+        # the table rows come in any order
+        idx = np.argsort(ph_wl)
+        ph_wl, ph_sed = ph_wl[idx], ph_sed[idx]
 
         bolometric_flux = np.trapz(ph_sed, x=ph_wl)  # [W m**-2]
         bolometric_luminosity = (
-- 
2.43.0


From 5d89d1818c07f1b908f8048493b6707471f58937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 30/81] fix: find apertures smaller than the first radius
 investigated

---
 exorad/utils/exolib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index e7af4dc..8946fd5 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -509,7 +509,8 @@ def find_aperture_radius(ima, eec, Fnum_x, Fnum_y, wavelength):
     float
     """
     last_enc, i = 0, 0
-    rs, enc = [], []
+    # no energy is enclosed in an aperture of null radius
+    rs, enc = [0], [0.0]
     # the encircled energy cannot exceed the total one
     max_enc = min(eec + 0.02, 1.0 - 1.0e-9)
     while last_enc < max_enc:
-- 
2.43.0


From d6fdbb3f6e80b264794d8bc159428a03b47fb3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 31/81] fix: measure photometer apertures in the sampling of
 the PSF image

---
 exorad/models/instruments/photometer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index da7237a..6b47d6e 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -76,14 +76,14 @@ class Photometer(Instrument):
         self._add_data_to_built("pixelRF", pixel_rf)
         self._add_data_to_built("extent", extent)
 
-        window_size_px = self._windows_size(prf, psf_format)
+        window_size_px = self._windows_size(prf, psf_format, extent)
         self.debug("window size : {}".format(window_size_px))
         self._add_data_to_built("window_size_px", window_size_px)
         self.table["WindowSize"] = u.Quantity(window_size_px)
 
         self._add_data_to_built("table", self.table)
 
-    def _windows_size(self, prf, psf_format):
+    def _windows_size(self, prf, psf_format, extent):
         """estimates the windows size starting from the PSF"""
         if "radius" in self.description["aperture"].keys():
             aper_radius = self.description["aperture"]["radius"]["value"]
@@ -109,11 +109,14 @@ class Photometer(Instrument):
                 )
                 window_size_px = [np.pi * aper_radius**2 * u.Unit("")]
             else:
+                # image pixels in a micron
+                scale_x = prf.shape[1] / np.ptp(u.Quantity(extent[:2])).to(u.um).value
+                scale_y = prf.shape[0] / np.ptp(u.Quantity(extent[2:])).to(u.um).value
                 aper_radius = find_aperture_radius(
                     prf,
                     self.description["aperture"]["EnE"]["value"],
-                    self.description["Fnum_x"]["value"],
-                    self.description["Fnum_y"]["value"],
+                    self.description["Fnum_x"]["value"] * scale_x,
+                    self.description["Fnum_y"]["value"] * scale_y,
                     self.table["Wavelength"],
                 )
                 window_size_px = (
-- 
2.43.0


From a28589770ed494f386f2bb19e108f23dc19307f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 32/81] fix: load dictionaries from files when no ConfigPath is
 set

---
 exorad/tasks/loadOptions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 67a66d5..9feed99 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -153,9 +153,9 @@ class LoadOptions(Task):
         if "datadict" in root_dict:
             attrValue = root_dict["datadict"]
             datafile = attrValue
-            datafile = datafile["value"].replace(
-                "__ConfigPath__", self.configPath
-            )
+            datafile = datafile["value"]
+            if "__ConfigPath__" in datafile:
+                datafile = datafile.replace("__ConfigPath__", self.configPath)
             try:
                 data = self.__read_datadict__(datafile)
                 root_dict["data"] = data
@@ -165,9 +165,9 @@ class LoadOptions(Task):
         if "config_dict" in root_dict:
             attrValue = root_dict["config_dict"]
             datafile = attrValue
-            datafile = datafile["value"].replace(
-                "__ConfigPath__", self.configPath
-            )
+            datafile = datafile["value"]
+            if "__ConfigPath__" in datafile:
+                datafile = datafile.replace("__ConfigPath__", self.configPath)
             try:
                 data = self.__read_datadict__(datafile)
                 root_dict = data
-- 
2.43.0


From 8e24f8a0d5c17874ecba202464b59290da1472f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 33/81] fix: store lists of items of different sizes

---
 exorad/output/hdf5/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 6c6ac8f..f319946 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -175,7 +175,12 @@ def store_thing(output, key, item):
             output.write_string_array(key, item)
         else:
             try:
-                output.write_array(key, np.array(item))
+                array = np.array(item)
+            except ValueError:
+                # items of different sizes do not fit an array
+                array = np.array(item, dtype=object)
+            try:
+                output.write_array(key, array)
 
             except TypeError:
                 for idx, val in enumerate(item):
-- 
2.43.0


From e6bcf422d87803ae9664b19d599793d12c684255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 34/81] fix: read back the metadata of tables without
 quantities

---
 exorad/output/hdf5/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index f319946..5e4eefe 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -104,11 +104,9 @@ def load_table(input_table, k):
             if attr in header_cols[col.name]:
                 setattr(col, attr, header_cols[col.name][attr])
     table = serialize._construct_mixins_from_columns(table)
-    try:
-        header["meta"].pop("__serialized_columns__")
+    if "meta" in header:
+        header["meta"].pop("__serialized_columns__", None)
         table.meta = header["meta"]
-    except KeyError:
-        pass
     return table
 
 
-- 
2.43.0


From 77fd31e8cd6636006c961113e97e88494dc685ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 35/81] fix: load tables whose names hold a dot

---
 exorad/output/hdf5/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 5e4eefe..f8c103b 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -47,7 +47,9 @@ def recursively_read_dict_contents(input_dict):
         table_keys = [
             elem for elem in new_keys if ".__table_column_meta__" in elem
         ]
-        table_keys = (elem.split(".")[0] for elem in table_keys)
+        table_keys = (
+            elem.replace(".__table_column_meta__", "") for elem in table_keys
+        )
         for k in table_keys:
             table = load_table(input_dict, k)
             input_dict[k] = table
-- 
2.43.0


From 54a9dff1fa263a20219d62e3ea245b668ce7c5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 36/81] fix: leave the values missing in a target list out of
 the target

---
 exorad/models/targetlist.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index a36a2b3..1f05aa0 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -36,6 +36,15 @@ class BaseTargetList(Logger):
     def read_data(self):
         raise NotImplementedError
 
+    @staticmethod
+    def _known_values(keys, values):
+        """pairs keys and values, leaving out the ones missing in the list"""
+        return {
+            k: v
+            for k, v in zip(keys, values)
+            if k == "name" or v is not np.ma.masked
+        }
+
     def create_target_list(self):
         star_keys = self.star_keys()
 
@@ -59,11 +68,11 @@ class BaseTargetList(Logger):
                 target.planet = Target()
                 target.star = Target()
 
-                planet_dict = dict(zip(planet_keys, planet))
+                planet_dict = self._known_values(planet_keys, planet)
 
                 target.planet.__dict__.update(planet_dict)
 
-                star_dict = dict(zip(star_keys, star))
+                star_dict = self._known_values(star_keys, star)
 
                 target.star.__dict__.update(star_dict)
                 target.name = target.planet.name
@@ -76,7 +85,7 @@ class BaseTargetList(Logger):
                 target.star = Target()
                 target.id = i
 
-                star_dict = dict(zip(star_keys, star))
+                star_dict = self._known_values(star_keys, star)
 
                 target.star.__dict__.update(star_dict)
                 target.name = target.star.name
-- 
2.43.0


From 7d9d7b0b4d99ee638a0f56581dfd7528946fe848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 37/81] fix: observe targets that have only one of the
 coordinates

---
 exorad/tasks/foregroundHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/tasks/foregroundHandler.py b/exorad/tasks/foregroundHandler.py
index 49a12d1..8fafcbd 100644
--- a/exorad/tasks/foregroundHandler.py
+++ b/exorad/tasks/foregroundHandler.py
@@ -48,7 +48,7 @@ class EstimateZodi(Task):
             * u.um
         )
 
-        if "ra" in target.star.__dict__.keys():
+        if "ra" in target.star.__dict__ and "dec" in target.star.__dict__:
             zodi = ZodiacalFrg(
                 wl=wl,
                 description=zodi_dict,
-- 
2.43.0


From ea3fbafa3d7f6c001012ac660e86cc1bcc5bd1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 38/81] fix: announce the whole change log since the version in
 use

---
 exorad/utils/version_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index 1a45584..eda27b9 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -75,7 +75,7 @@ class VersionControl(Logger):
                     message += line + "\n"
                     new_ver = line[line.find("[") + 1 : line.find("]")]
                     for line_ in self.content[i + 1 :]:
-                        if self.current_version in line_:
+                        if "## [{}]".format(self.current_version) in line_:
                             break
                         elif line_ != "":
                             message += line_ + "\n"
-- 
2.43.0


From 4a08b644beae73bf536e6e90500f123f4e78a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 39/81] fix: keep the debug messages on screen for every target
 of the list

---
 exorad/tasks/targetHandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 81b629a..cd4ac1d 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -296,7 +296,8 @@ def pipeline_to_dict(
             channels=channels,
             wl_range=wl_range,
         )
-        enableLogging()
+        if not debug:
+            enableLogging()
         outputDict = deepcopy(target)
 
         if plot:
@@ -314,7 +315,8 @@ def pipeline_to_dict(
             plt.close()
         return target.name, outputDict
     except:
-        enableLogging()
+        if not debug:
+            enableLogging()
         root_logger.warning(
             "target {} skipped. Please check for previous error messages".format(
                 target.name
-- 
2.43.0


From d4972bfa75056778a800a66d968a5705d57ef9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 40/81] fix: use the wavelength column indicated for an optical
 element

---
 exorad/models/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/utils.py b/exorad/models/utils.py
index 74cbd15..5594e02 100644
--- a/exorad/models/utils.py
+++ b/exorad/models/utils.py
@@ -6,6 +6,6 @@ def get_wl_col_name(data, description=None):
         for wl_key in ["Wavelength", "wavelength"]:
             if wl_key in data.keys():
                 wl_colname = wl_key
-    if wl_key is None:
+    if wl_colname is None:
         raise KeyError("Wavelength column not found in transmission data file")
     return wl_colname
-- 
2.43.0


From 20872d13b8d87adb08a15ed88539fedcf8e9d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 41/81] fix: list the channels of payloads that have only one

---
 exorad/tasks/instrumentHandler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index d3309b1..0abb8fb 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -363,9 +363,12 @@ class GetChannelList(Task):
 
     def __get_channel_list__(self):
         channel_lst = []
-        for channel in self._opt["channel"].keys():
+        channels = self._opt["channel"]
+        if "channelClass" in channels:
+            channels = {channels["value"]: channels}
+        for channel in channels.keys():
             if (
-                self._opt["channel"][channel]["channelClass"]["value"].lower()
+                channels[channel]["channelClass"]["value"].lower()
                 == self._channel_type.lower()
             ):
                 channel_lst.append(channel)
-- 
2.43.0


From 78e90f8bb5c7c47593e812fac81a2e46f831204b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 42/81] fix: observe targets with a custom source and no mass
 or temperature

---
 exorad/tasks/loadSource.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/loadSource.py b/exorad/tasks/loadSource.py
index 664c463..366a975 100644
--- a/exorad/tasks/loadSource.py
+++ b/exorad/tasks/loadSource.py
@@ -184,8 +184,10 @@ class LoadSource(Task):
         metadata = {}
 
         metadata["starName"] = star.name
-        metadata["starM"] = star.M
-        metadata["starTeff"] = star.Teff
+        # custom sources do not need the star mass and temperature
+        for key in ["M", "Teff"]:
+            if hasattr(star, key):
+                metadata["star{}".format(key)] = getattr(star, key)
         metadata["starR"] = star.R
         metadata["starDistance"] = star.D
         metadata["starL"] = star.luminosity
-- 
2.43.0


From 20098d9a107e72981a32658fbc01b30e511d300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 43/81] fix: write the version of the code in the output files

---
 exorad/output/hdf5/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index 031e0aa..b3c7638 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -58,7 +58,7 @@ from exorad import __license__
 from exorad import __pkg_name__
 from exorad import __title__
 from exorad import __url__
-from exorad import __version__
+from exorad.__version__ import __version__
 from exorad.output.hdf5.util import hdf5_group_to_dict
 from exorad.output.hdf5.util import ORDER_KEY
 from exorad.output.hdf5.util import recursively_read_dict_contents
-- 
2.43.0


From 56ae23ef81a8871880dc245336434b9b090543e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 44/81] fix: look for new versions in the repository of the
 package

---
 exorad/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/exorad/__init__.py b/exorad/__init__.py
index 33efa29..e38cab1 100644
--- a/exorad/__init__.py
+++ b/exorad/__init__.py
@@ -4,7 +4,13 @@ from datetime import date
 
 # load package info
 __pkg_name__ = metadata.metadata("exorad")["Name"]
-__url__ = metadata.metadata("exorad")["Project-URL"]
+__url__ = {
+    label.lower(): url
+    for label, url in (
+        project_url.split(", ", 1)
+        for project_url in metadata.metadata("exorad").get_all("Project-URL")
+    )
+}["repository"]
 __author__ = metadata.metadata("exorad")["Author"]
 __license__ = metadata.metadata("exorad")["license"]
 __summary__ = metadata.metadata("exorad")["Summary"]
-- 
2.43.0


From 90b99356920a1aca7f312d8ceb81035736f143ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 45/81] fix: read change logs that are not plain ASCII

---
 exorad/utils/version_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index eda27b9..c34743f 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -52,7 +52,7 @@ class VersionControl(Logger):
             self.status_code = True
             req = req.json()
             content = base64.b64decode(req["content"])
-            content = content.decode("ascii")
+            content = content.decode("utf-8")
             content = content.splitlines()
         else:
             self.status_code = False
-- 
2.43.0


From 4a63d700b46e784d8b8b447f15e2b9fc1c62995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 46/81] fix: do not fail when the change log cannot be reached

---
 exorad/utils/version_control.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index c34743f..b1bfbdd 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -47,7 +47,12 @@ class VersionControl(Logger):
             )
         )
         self.debug("package url: {}".format(url))
-        req = requests.get(url)
+        try:
+            req = requests.get(url)
+        except requests.exceptions.RequestException as ex:
+            self.debug("change log not available: {}".format(ex))
+            self.status_code = False
+            return None
         if req.status_code == requests.codes.ok:
             self.status_code = True
             req = req.json()
-- 
2.43.0


From 6cc15fd4d6fdaa3dfc1aa46e05910b1fe32116a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:38 +0000
Subject: [PATCH 47/81] fix: import the package from worktrees and detached
 heads

---
 exorad/__init__.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/exorad/__init__.py b/exorad/__init__.py
index e38cab1..41e7221 100644
--- a/exorad/__init__.py
+++ b/exorad/__init__.py
@@ -27,14 +27,19 @@ if __base_dir__ is not None and os.path.exists(
     os.path.join(__base_dir__, ".git")
 ):
     git_folder = os.path.join(__base_dir__, ".git")
-    with open(os.path.join(git_folder, "HEAD")) as fp:
-        ref = fp.read().strip()
-    ref_dir = ref[5:]
-    __branch__ = ref[16:]
     try:
-        with open(os.path.join(git_folder, ref_dir)) as fp:
-            __commit__ = fp.read().strip()
-    except FileNotFoundError:
+        with open(os.path.join(git_folder, "HEAD")) as fp:
+            ref = fp.read().strip()
+        if ref.startswith("ref: "):
+            ref_dir = ref[5:]
+            __branch__ = ref[16:]
+            with open(os.path.join(git_folder, ref_dir)) as fp:
+                __commit__ = fp.read().strip()
+        else:
+            # detached head
+            __commit__ = ref
+    except OSError:
+        # not readable, or .git is not a folder (worktrees and submodules)
         __commit__ = None
 
 __title__ = "ExoRad2"
-- 
2.43.0


From fdab7a019a8a1e7a9b50bbc8a47655af5fe7401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 48/81] fix: tell the version of the code in the help of the
 command

---
 exorad/exorad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index 65f52ab..23151d7 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -126,7 +126,7 @@ def standard_pipeline(
 def main():
     import argparse
 
-    parser = argparse.ArgumentParser(description="ExoRad {}".format(version))
+    parser = argparse.ArgumentParser(description="ExoRad {}".format(version.__version__))
     parser.add_argument(
         "-p",
         "--payload",
-- 
2.43.0


From b77a197aaa5fd0586321355c0fbc1be53b1a8424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 49/81] fix: replace the targets observed before when the
 output holds the payload

---
 exorad/exorad.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index 23151d7..0f6839a 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -3,6 +3,7 @@ import os
 import pathlib
 import shutil
 
+import h5py
 import matplotlib.pyplot as plt
 
 import exorad.__version__ as version
@@ -79,6 +80,11 @@ def standard_pipeline(
             shutil.copy(target_list, out_dir)
         except shutil.SameFileError:
             pass
+        if replace and os.path.exists(output):
+            # the payload is stored in the output file: discard earlier results
+            with h5py.File(output, "a") as out:
+                if "targets" in out:
+                    del out["targets"]
     else:
         out_dir = None
 
-- 
2.43.0


From 8279e79e2572ceb3066628ab3c6ccca58ba1d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:34 +0000
Subject: [PATCH 50/81] fix: do not change the timeout of other connections
 when looking for new versions

---
 exorad/utils/version_control.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index b1bfbdd..a6d1cc1 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -96,11 +96,8 @@ class VersionControl(Logger):
         solution from https://stackoverflow.com/a/33117579
         """
         try:
-            socket.setdefaulttimeout(timeout)
-            socket.socket(socket.AF_INET, socket.SOCK_STREAM).connect(
-                (host, port)
-            )
-            return True
+            with socket.create_connection((host, port), timeout=timeout):
+                return True
         except OSError as ex:
             print(ex)
             return False
-- 
2.43.0


From 0a00879e0b3c8f96d66254b8829b0ba5a24ff32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 51/81] fix: do not wait for ever for the change log

---
 exorad/utils/version_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index a6d1cc1..64110f5 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -48,7 +48,7 @@ class VersionControl(Logger):
         )
         self.debug("package url: {}".format(url))
         try:
-            req = requests.get(url)
+            req = requests.get(url, timeout=10)
         except requests.exceptions.RequestException as ex:
             self.debug("change log not available: {}".format(ex))
             self.status_code = False
-- 
2.43.0


From b09eb3438be8dd778f1e3583bd99b579eeedb5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 52/81] fix: announce only versions newer than the one in use

---
 exorad/utils/version_control.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index 64110f5..e515d9a 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -2,6 +2,8 @@ import base64
 import socket
 
 import requests
+from packaging.version import InvalidVersion
+from packaging.version import Version
 
 from exorad import __url__
 from exorad.__version__ import __version__ as current_ver
@@ -72,7 +74,7 @@ class VersionControl(Logger):
                 if "## [Unreleased]" in line:
                     continue
 
-                if "[{}]".format(self.current_version) in line:
+                if not self._is_newer(line):
                     self.debug("version already updated")
                     break
                 else:
@@ -80,13 +82,23 @@ class VersionControl(Logger):
                     message += line + "\n"
                     new_ver = line[line.find("[") + 1 : line.find("]")]
                     for line_ in self.content[i + 1 :]:
-                        if "## [{}]".format(self.current_version) in line_:
+                        if line_.startswith("## [") and not self._is_newer(
+                            line_
+                        ):
                             break
                         elif line_ != "":
                             message += line_ + "\n"
                     break
         return message, new_ver
 
+    def _is_newer(self, line):
+        """tells if the release announced in the line is newer than the code"""
+        release = line[line.find("[") + 1 : line.find("]")]
+        try:
+            return Version(release) > Version(self.current_version)
+        except InvalidVersion:
+            return release != self.current_version
+
     def _check_internet(self, host="8.8.8.8", port=53, timeout=3):
         """
         Host: 8.8.8.8 (google-public-dns-a.google.com)
-- 
2.43.0


From 38e9ee01e07e677a739544411788ef3ad2d93219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:52 +0000
Subject: [PATCH 53/81] fix: show the messages asked for again after each
 observation

---
 exorad/tasks/targetHandler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index cd4ac1d..d28ddfd 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -8,7 +8,7 @@ from ..models.targetlist import XLXSTargetList
 from .task import Task
 from exorad.__version__ import __version__
 from exorad.log import disableLogging
-from exorad.log import enableLogging
+from exorad.log import setLogLevel
 from exorad.utils.passVal import PassVal
 
 
@@ -287,6 +287,7 @@ def pipeline_to_dict(
     observeTarget = ObserveTarget()
 
     root_logger.info("observing {}".format(target.name))
+    level = root_logger.handlers[0].level
     if not debug:
         disableLogging()
     try:
@@ -297,7 +298,7 @@ def pipeline_to_dict(
             wl_range=wl_range,
         )
         if not debug:
-            enableLogging()
+            setLogLevel(level)
         outputDict = deepcopy(target)
 
         if plot:
@@ -316,7 +317,7 @@ def pipeline_to_dict(
         return target.name, outputDict
     except:
         if not debug:
-            enableLogging()
+            setLogLevel(level)
         root_logger.warning(
             "target {} skipped. Please check for previous error messages".format(
                 target.name
-- 
2.43.0


From 5ddd1f93b80845872dccc04e766e50ccb777f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:26 +0000
Subject: [PATCH 54/81] fix: run tasks without inputs

---
 exorad/tasks/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/task.py b/exorad/tasks/task.py
index 643023f..bc7a459 100644
--- a/exorad/tasks/task.py
+++ b/exorad/tasks/task.py
@@ -40,12 +40,12 @@ class Task(Logger):
 
     def _validate_input_params(self):
         for key in self._task_input.keys():
-            if key not in self._task_params.keys():
+            if key not in (self._task_params or {}):
                 self.error("Unexpected Task input parameter: {}".format(key))
                 raise ValueError
 
     def _populate_empty_param(self):
-        for key in self._task_params.keys():
+        for key in self._task_params or {}:
             if key not in self._task_input.keys():
                 self._task_input[key] = self._task_params[key]["default"]
 
-- 
2.43.0


From 5edb1a643e068c1e37e9cd5a645d086a6be989bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 55/81] fix: store lists of texts whole

---
 exorad/output/hdf5/hdf5.py | 6 +++---
 exorad/output/hdf5/util.py | 6 ++++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index b3c7638..b80a8a6 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -128,11 +128,11 @@ class HDF5OutputGroup(OutputGroup):
         return HDF5OutputGroup(entry)
 
     def write_string_array(self, string_name, string_array, metadata=None):
-        asciiList = [n.encode("ascii", "ignore") for n in string_array]
         ds = self._entry.create_dataset(
-            str(string_name), (len(asciiList), 1), "S64", asciiList
+            str(string_name),
+            data=list(string_array),
+            dtype=h5py.string_dtype(),
         )
-
         if metadata:
             for k, v in metadata.items():
                 ds.attrs[k] = v
diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index f8c103b..4b59851 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -79,6 +79,12 @@ def hdf5_group_to_dict(h5_group):
             result[key] = item[()]  # This reads the dataset into a numpy array
             if isinstance(result[key], bytes):
                 result[key] = result[key].decode("utf-8")
+            elif (
+                getattr(h5py.check_string_dtype(item.dtype), "encoding", None)
+                == "utf-8"
+            ):
+                # a list of texts
+                result[key] = item.asstr()[()].astype(str)
         elif isinstance(item, h5py.Group):
             # Recurse into subgroups
             result[key] = hdf5_group_to_dict(item)
-- 
2.43.0


From 60e9ec060a28e792ff2fea27b4e764fbd9f9a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:36 +0000
Subject: [PATCH 56/81] fix: choose among stellar models of any metallicity

---
 exorad/models/source.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/exorad/models/source.py b/exorad/models/source.py
index c048670..91d6f4d 100755
--- a/exorad/models/source.py
+++ b/exorad/models/source.py
@@ -1,5 +1,6 @@
 import glob
 import os
+import re
 import warnings
 
 import numpy as np
@@ -114,13 +115,17 @@ class Star(Logger):
         sed_name_cleaned = [os.path.basename(k) for k in sed_name]
 
         sed_T_list = np.array(
-            [float(name.split("-")[0][3:]) for name in sed_name_cleaned]
+            [float(re.split("[-+]", name)[0][3:]) for name in sed_name_cleaned]
         )
         sed_Logg_list = np.array(
-            [float(name.split("-")[1]) for name in sed_name_cleaned]
+            [float(re.split("[-+]", name)[1]) for name in sed_name_cleaned]
         )
+        # the metallicity has a sign, the gravity has not
         sed_Z_list = np.array(
-            [float(name.split("-")[2][:3]) for name in sed_name_cleaned]
+            [
+                float(re.findall(r"[-+]\d\.\d", name)[1])
+                for name in sed_name_cleaned
+            ]
         )
 
         temp_to_find = star_temperature.value / 100
-- 
2.43.0


From 8e6d402b34888d29455de3a9b2b58686e96b9e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:42 +0000
Subject: [PATCH 57/81] fix: search names holding signs of regular expressions

---
 exorad/models/targetlist.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 1f05aa0..5ab8764 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -1,5 +1,3 @@
-import re
-
 import numpy as np
 import xlrd
 
@@ -108,8 +106,7 @@ class BaseTargetList(Logger):
                 # planets are optional
                 names.append(target.planet.name)
             if any(
-                re.search(searchName, compactString(str(name)))
-                for name in names
+                searchName in compactString(str(name)) for name in names
             ):
                 returnList.append(target)
 
@@ -455,8 +452,7 @@ class OldExcelTargetList(Logger):
                 # planets are optional
                 names.append(target.planet.name)
             if any(
-                re.search(searchName, compactString(str(name)))
-                for name in names
+                searchName in compactString(str(name)) for name in names
             ):
                 returnList.append(target)
 
-- 
2.43.0


From 959ed13f807d7d0ae924a58f52f09acd30925ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:42 +0000
Subject: [PATCH 58/81] fix: fill with zeros the columns missing from a table
 whatever they hold

---
 exorad/utils/util.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index 2d8e971..4a1bd00 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -76,6 +76,12 @@ def to_dict(obj, classkey=None):
         return obj
 
 
+def _zeros(size, column):
+    """zeros in the units of the column, whatever it holds"""
+    unit = getattr(column, "unit", None)
+    return np.zeros(size) if unit is None else np.zeros(size) * unit
+
+
 def vstack_tables(table_list):
     table = False
     for tab in table_list:
@@ -87,11 +93,11 @@ def vstack_tables(table_list):
             col_name1 = [col for col in table.keys() if col not in tab.keys()]
             if col_name1:
                 for c in col_name1:
-                    tab[c] = np.zeros(len(tab)) * table[c][0]
+                    tab[c] = _zeros(len(tab), table[c])
             col_name2 = [col for col in tab.keys() if col not in table.keys()]
             if col_name2:
                 for c in col_name2:
-                    table[c] = np.zeros(len(table)) * tab[c][0]
+                    table[c] = _zeros(len(table), tab[c])
             table = vstack([table, tab], join_type="outer")
     return table
 
-- 
2.43.0


From f30af71e52ac2b1af83e61fa196ad20407aa754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:42 +0000
Subject: [PATCH 59/81] fix: find PSF images in folders named without the final
 slash

---
 exorad/utils/exolib.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 8946fd5..a06d486 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -223,6 +223,8 @@ def binnedPSF(
     PSFtype="AIRY",
     plot=False,
 ):
+    if filename:
+        filename = os.path.expanduser(filename)
     if filename and os.path.exists(filename):
         if filename[-5:] == ".fits":
             with fits.open(os.path.expanduser(filename)) as hdu:
@@ -234,7 +236,7 @@ def binnedPSF(
                     F_x, F_y, wl, delta_pix, hdr
                 )
         elif os.path.isdir(filename):
-            filenames = np.sort(glob.glob(filename + "*.fits"))
+            filenames = np.sort(glob.glob(os.path.join(filename, "*.fits")))
             psf_wl = []
             for file in filenames:
                 with fits.open(os.path.expanduser(file)) as hdu:
@@ -293,6 +295,7 @@ def load_pixel_psf_size(delta_pix, hdr):
 
 
 def pixel_based_psf(wl, delta_pix, filename):
+    filename = os.path.expanduser(filename)
     if filename[-5:] == ".fits":
         with fits.open(os.path.expanduser(filename)) as hdu:
             ima = hdu[0].data
@@ -300,7 +303,7 @@ def pixel_based_psf(wl, delta_pix, filename):
             extent = load_pixel_psf_size(delta_pix, hdr)
 
     elif os.path.isdir(filename):
-        filenames = np.sort(glob.glob(filename + "*.fits"))
+        filenames = np.sort(glob.glob(os.path.join(filename, "*.fits")))
         psf_wl = []
         for file in filenames:
             with fits.open(os.path.expanduser(file)) as hdu:
-- 
2.43.0


From 20813ec82a741542156be2e3072832209cfc6c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:44 +0000
Subject: [PATCH 60/81] fix: tell signals from what only has the word in its
 name

---
 exorad/models/noise.py        | 26 ++++++++++++++++++++++++--
 exorad/tasks/targetHandler.py |  5 ++++-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index c2ef70d..8963cc5 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -109,6 +109,28 @@ def multiaccum(channel, t_frame):
     return read_gain, shot_gain
 
 
+def signal_columns(table):
+    """
+    Names of the columns holding the signal of a source of light, whatever the
+    name of the source is
+
+    Parameters
+    -----------
+    table: Table
+        Target table to investigate
+
+    Returns
+    --------
+    list
+        column names
+    """
+    return [
+        key
+        for key in table.keys()
+        if key.endswith(("signal", "signal_inAperture"))
+    ]
+
+
 def photon_noise(table, channel, shot_gain, out):
     """
     Given the channel and channel descriptions, populates the output table with photon noises
@@ -131,7 +153,7 @@ def photon_noise(table, channel, shot_gain, out):
     """
     name = channel["value"]
 
-    signals = [key for key in table.keys() if "signal" in key]
+    signals = signal_columns(table)
     for key in signals:
         noise_key = "{}_noise".format(key)
         out[noise_key] = (
@@ -165,7 +187,7 @@ def photon_noise_variance(table, out):
         sum of photon variances
     """
     '''
-    signals = [key for key in table.keys() if "signal" in key]
+    signals = signal_columns(table)
     _photon_noise_variance = (
         np.zeros(out["frameTime"].size) * (u.count / u.s) ** 2 * u.hr
     )
diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index d28ddfd..c851d74 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -176,7 +176,10 @@ class EstimateMaxSignal(Task):
         self.info("estimating max signal in pixel")
         target = self.get_task_param("target")
         table = target.table
-        signals = [key for key in table.keys() if "Max" in key]
+        # not the total, nor what only has the word in its name
+        signals = [
+            key for key in table.keys() if key.endswith("_MaxSignal_inPixel")
+        ]
         max_signal = np.zeros(table["Wavelength"].size) * u.count / u.s
         for key in signals:
             max_signal += table[key]
-- 
2.43.0


From ab0daea54d1a0f388580e513f4d548ca19816e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:44 +0000
Subject: [PATCH 61/81] fix: refuse custom noise that cannot be read instead of
 ignoring it

---
 exorad/tasks/noiseHandler.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/exorad/tasks/noiseHandler.py b/exorad/tasks/noiseHandler.py
index 8b7e220..1c631d6 100644
--- a/exorad/tasks/noiseHandler.py
+++ b/exorad/tasks/noiseHandler.py
@@ -91,16 +91,15 @@ class EstimateNoiseInChannel(Task):
         )
 
         wl = target.table["Wavelength"][target.table["chName"] == name]
-        if payload:
-            try:
-                out = noise.add_custom_noise(
-                    payload["common"]["customNoise"], wl, out
-                )
-            except KeyError:
-                self.debug("no custom noise found in common section")
-        try:
+        if payload and "customNoise" in payload.get("common", {}):
+            out = noise.add_custom_noise(
+                payload["common"]["customNoise"], wl, out
+            )
+        else:
+            self.debug("no custom noise found in common section")
+        if "customNoise" in channel:
             out = noise.add_custom_noise(channel["customNoise"], wl, out)
-        except KeyError:
+        else:
             self.debug("no custom noise found in channel section")
 
         self.debug("total noise : {}".format(out["total_noise"]))
-- 
2.43.0


From a2a43635d35f187083178f1e066a47c67cbeeaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:44 +0000
Subject: [PATCH 62/81] fix: plot as signals and noise only the columns that
 hold them

---
 exorad/utils/plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/utils/plotter.py b/exorad/utils/plotter.py
index 8e13b5d..27745b3 100644
--- a/exorad/utils/plotter.py
+++ b/exorad/utils/plotter.py
@@ -227,7 +227,7 @@ class Plotter(Logger):
         The Class input_table input parameter is required for this method to work.
         """
         noise_keys = [
-            x for x in self.inputTable.keys() if "noise" in x or "custom" in x
+            x for x in self.inputTable.keys() if x.endswith("_noise")
         ]
         self.debug("noise keys : {}".format(noise_keys))
         for k, n in enumerate(noise_keys):
@@ -319,7 +319,7 @@ class Plotter(Logger):
         keys = [
             x
             for x in self.inputTable.keys()
-            if "signal" in x and "noise" not in x
+            if x.endswith(("signal", "signal_inAperture"))
         ]
         self.debug("signal keys : {}".format(keys))
         for k, s in enumerate(keys):
-- 
2.43.0


From df7b88ac77c8e9889e46a8cc0ab80b9406d193d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:02 +0000
Subject: [PATCH 63/81] fix: count once the foregrounds estimated again

---
 exorad/tasks/foregroundHandler.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/exorad/tasks/foregroundHandler.py b/exorad/tasks/foregroundHandler.py
index 8fafcbd..81baf8c 100644
--- a/exorad/tasks/foregroundHandler.py
+++ b/exorad/tasks/foregroundHandler.py
@@ -109,16 +109,14 @@ class EstimateForeground(Task):
         if not hasattr(target, "foreground"):
             setattr(target, "foreground", OrderedDict())
         target.foreground[foreground_name] = foreground.skyFilter
-        if not hasattr(target, "skyTransmission"):
-            from exorad.models.signal import Signal
-
-            setattr(
-                target,
-                "skyTransmission",
-                Signal(wl, foreground.skyFilter.transmission),
-            )
-        else:
-            target.skyTransmission.data *= foreground.skyFilter.transmission
+        from exorad.models.signal import Signal
+
+        # each foreground counts once, also if it is estimated again
+        transmission = np.ones(wl.size)
+        for frg in target.foreground.values():
+            if getattr(frg, "transmission", None) is not None:
+                transmission = transmission * frg.transmission
+        setattr(target, "skyTransmission", Signal(wl, transmission))
         self.set_output(target)
 
 
-- 
2.43.0


From fa0ae369a20dc8fb0867df62cd67aeddd09aa8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 64/81] fix: count whole the pixels of slits as wide as a
 number of pixels

---
 exorad/utils/diffuse_light_propagation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/exorad/utils/diffuse_light_propagation.py b/exorad/utils/diffuse_light_propagation.py
index 30f11e6..9040c7e 100644
--- a/exorad/utils/diffuse_light_propagation.py
+++ b/exorad/utils/diffuse_light_propagation.py
@@ -84,12 +84,12 @@ def convolve_with_slit(
     radiance.data *= aomega
     logger.debug("sed : {}".format(radiance.data))
     logger.debug("convolving with slit")
-    slit_kernel = np.ones(
-        int(
-            slit_width
-            / ch_description["detector"]["delta_pix"]["value"].to(u.um)
-        )
-    )
+    slit_pixels = u.Quantity(
+        slit_width
+        / ch_description["detector"]["delta_pix"]["value"].to(u.um)
+    ).to_value(u.dimensionless_unscaled)
+    # whole pixels, also when their number is rounded just below
+    slit_kernel = np.ones(int(slit_pixels * (1 + 1e-12)))
     signal_tmp = (
         np.convolve(radiance.data * dwl_pic, slit_kernel, "same")
     ).to(u.count / u.s)
-- 
2.43.0


From 5a9056c0cbc78db4525c52eed0bdb4a2bc5c523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 65/81] fix: count whole the reads of frames lasting a number
 of reads

---
 exorad/models/noise.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index 8963cc5..515eadf 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -69,10 +69,12 @@ def multiaccum(channel, t_frame):
     float
         shot noise gain
     """
+    # whole reads, also when their number is rounded just below
     nRead = np.floor(
         u.Quantity(t_frame * channel["detector"]["freqNDR"]["value"])
         .to(u.dimensionless_unscaled)
         .value
+        * (1 + 1e-12)
     )
 
     if "multiaccumM" in channel["detector"]:
-- 
2.43.0


From 828a86d8802cf72407f4abd03c4cbe135ad0531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 66/81] fix: count whole the pixels of channels as wide as a
 number of pixels

---
 exorad/models/instruments/spectrometer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 46bea92..6060223 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -166,10 +166,13 @@ class Spectrometer(Instrument):
         )
 
         # coordinates of detector  pixel centres
-        coord_pix_center = (
-            np.arange(first_pixel.value, last_pixel.value, delta.value)
-            * delta.unit
+        # a whole number of pixels does not get one more for the rounding
+        n_pixels = np.ceil(
+            (last_pixel.value - first_pixel.value) / delta.value - 1e-9
         )
+        coord_pix_center = (
+            first_pixel.value + delta.value * np.arange(n_pixels)
+        ) * delta.unit
         coord_pix_center = np.flip(coord_pix_center)
         self.debug("pix_center: {}".format(coord_pix_center))
         self._add_data_to_built("pix_center", coord_pix_center)
-- 
2.43.0


From d120c2140bc1f2d735a32d15f9d7b26594ac3990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:59 +0000
Subject: [PATCH 67/81] fix: read the ranges of targets as documented

---
 exorad/utils/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index 4a1bd00..0f91039 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -115,7 +115,7 @@ def parse_range(inp, avail_values):
         start = None
         end = None
         try:
-            s = a.split("-")
+            s = a.replace(":", "-").split("-")
             start = int(s[0])
             end = int(s[1])
             end += 1
-- 
2.43.0


From a2b22dd227dd144d5d3d0d062cd82718baef6f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:59 +0000
Subject: [PATCH 68/81] fix: read the units of target lists that are written
 with blanks

---
 exorad/models/targetlist.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 5ab8764..b2c918b 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -196,8 +196,9 @@ class CSVTargetList(BaseTargetList):
         star_k = [k for k in self.tmpTab.keys() if "star" in k]
         units = []
         for n, k in enumerate(star_k):
-            if len(k.split(" ")) == 3:
-                un = k.split(" ")[2]
+            # the unit is all that follows the name of the column
+            if len(k.split(" ", 2)) == 3:
+                un = k.split(" ", 2)[2]
                 units.append(1 * u.Unit(stripUnitString(un)))
             else:
                 units.append(None)
@@ -219,8 +220,9 @@ class CSVTargetList(BaseTargetList):
         planet_k = [k for k in self.tmpTab.keys() if "planet" in k]
         units = []
         for n, k in enumerate(planet_k):
-            if len(k.split(" ")) == 3:
-                un = k.split(" ")[2]
+            # the unit is all that follows the name of the column
+            if len(k.split(" ", 2)) == 3:
+                un = k.split(" ", 2)[2]
                 units.append(1 * u.Unit(stripUnitString(un)))
             else:
                 units.append(None)
-- 
2.43.0


From 05abce4511ef3e13a78147b9c7a8fe6eca4f35de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:59 +0000
Subject: [PATCH 69/81] fix: do not return the output of an earlier call of a
 task

---
 exorad/tasks/task.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exorad/tasks/task.py b/exorad/tasks/task.py
index bc7a459..e4ad733 100644
--- a/exorad/tasks/task.py
+++ b/exorad/tasks/task.py
@@ -33,6 +33,7 @@ class Task(Logger):
     def __call__(self, **kwargs):
         self.set_log_name()
         self._task_input = kwargs
+        self._output = None
         self._validate_input_params()
         self._populate_empty_param()
         self.execute()
-- 
2.43.0


From 8aa3edc5b42113600af0d2aad72021d43911f2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:16 +0000
Subject: [PATCH 70/81] fix: keep the common elements that have the name of one
 of a channel

---
 exorad/models/optics/opticalPath.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index 710a7ab..28d52a5 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -212,9 +212,15 @@ class OpticalPath(Logger):
             Dictionary of optical elements to prepend.
         """
         # Prepend the new optical elements to the existing ones
-        self.optical_element_dict = OrderedDict(
-            list(optical_element_dict.items()) + list(self.optical_element_dict.items())
-        )
+        elements = OrderedDict(optical_element_dict)
+        for name, el in self.optical_element_dict.items():
+            # an element may have the name of a prepended one: keep both
+            n = 1
+            while el.name in elements:
+                n += 1
+                el.name = "{} ({})".format(name, n)
+            elements[el.name] = el
+        self.optical_element_dict = elements
 
     def _prepare_elements(self):
         """
-- 
2.43.0


From 056fceb3c4585926de1a384a1ea892942c381aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:53 +0000
Subject: [PATCH 71/81] fix: report together the custom noises that have the
 same name

---
 exorad/models/noise.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index 515eadf..1aa03a5 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -218,7 +218,15 @@ def add_custom_noise(custom, wl, out):
             custom_noise = (
                 contrib["value"] * 1e-6 * np.ones(wl.size) * u.hr**0.5
             )
-        out["{}_noise".format(name)] = custom_noise
+        key = "{}_noise".format(name)
+        if key == "total_noise":
+            logger.error("a custom noise cannot be named total")
+            raise ValueError("a custom noise cannot be named total")
+        if key in out.keys():
+            # several contributions may have the same name: they all count
+            out[key] = np.sqrt(out[key] ** 2 + custom_noise**2)
+        else:
+            out[key] = custom_noise
         logger.debug("{} added as custom noise :{}".format(name, custom_noise))
         out["total_noise"] = np.sqrt(
             out["total_noise"] * out["total_noise"]
-- 
2.43.0


From 86e8031f8b201789f1e779d98e62a8c023e4567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:10 +0000
Subject: [PATCH 72/81] fix: read the fractions given in percent

---
 exorad/models/foregrounds/skyForegrounds.py |  3 ++-
 exorad/models/instruments/photometer.py     | 12 ++++++++----
 exorad/models/optics/opticalElement.py      | 21 +++++++++++++++------
 exorad/models/utils.py                      | 14 ++++++++++++++
 4 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/exorad/models/foregrounds/skyForegrounds.py b/exorad/models/foregrounds/skyForegrounds.py
index 087899a..a77799e 100644
--- a/exorad/models/foregrounds/skyForegrounds.py
+++ b/exorad/models/foregrounds/skyForegrounds.py
@@ -2,6 +2,7 @@ from scipy.interpolate import interp1d
 
 from exorad.log import Logger
 from exorad.models.signal import Radiance
+from exorad.models.utils import to_number
 
 
 class SkyFilter(Radiance):
@@ -42,7 +43,7 @@ class SkyForeground(Logger):
 
         tr_func = interp1d(
             skyFilter_data["Wavelength"].to(self.wl.unit),
-            skyFilter_data["Transmission"],
+            to_number(skyFilter_data["Transmission"]),
             assume_sorted=False,
             fill_value=1.0,
             bounds_error=False,
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 6b47d6e..2382131 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -4,6 +4,7 @@ import numpy as np
 from astropy.table import QTable
 
 from .instrument import Instrument
+from exorad.models.utils import to_number
 from exorad.utils.exolib import binnedPSF
 from exorad.utils.exolib import find_aperture_radius
 from exorad.utils.exolib import paosPSF
@@ -102,7 +103,7 @@ class Photometer(Instrument):
             if psf_format == "pixel_based":
                 aper_radius = find_aperture_radius(
                     prf,
-                    self.description["aperture"]["EnE"]["value"],
+                    to_number(self.description["aperture"]["EnE"]["value"]),
                     1,
                     1,
                     1 * u.micron,
@@ -114,7 +115,7 @@ class Photometer(Instrument):
                 scale_y = prf.shape[0] / np.ptp(u.Quantity(extent[2:])).to(u.um).value
                 aper_radius = find_aperture_radius(
                     prf,
-                    self.description["aperture"]["EnE"]["value"],
+                    to_number(self.description["aperture"]["EnE"]["value"]),
                     self.description["Fnum_x"]["value"] * scale_x,
                     self.description["Fnum_y"]["value"] * scale_y,
                     self.table["Wavelength"],
@@ -176,11 +177,14 @@ class Photometer(Instrument):
         if "apertureCorrection" in self.description["aperture"].keys():
             star_signal_aperture = (
                 star_signal
-                * self.description["aperture"]["apertureCorrection"]["value"]
+                * to_number(
+                    self.description["aperture"]["apertureCorrection"]["value"]
+                )
             )
         elif "EnE" in self.description["aperture"].keys():
             star_signal_aperture = (
-                star_signal * self.description["aperture"]["EnE"]["value"]
+                star_signal
+                * to_number(self.description["aperture"]["EnE"]["value"])
             )
         else:
             self.debug("aperture correction not found")
diff --git a/exorad/models/optics/opticalElement.py b/exorad/models/optics/opticalElement.py
index c9b0f9a..42b4a26 100644
--- a/exorad/models/optics/opticalElement.py
+++ b/exorad/models/optics/opticalElement.py
@@ -4,6 +4,7 @@ from scipy.interpolate import interp1d
 
 from exorad.log import Logger
 from exorad.models.utils import get_wl_col_name
+from exorad.models.utils import to_number
 
 
 class OpticalElement(Logger):
@@ -199,7 +200,7 @@ class OpticalElement(Logger):
             # Create an interpolation function for transmission
             tr_func = interp1d(
                 self._get_data_wl(wl_colname),
-                self.description["data"][colname],
+                to_number(self.description["data"][colname]),
                 assume_sorted=False,
                 fill_value=0.0,
                 bounds_error=False,
@@ -209,7 +210,9 @@ class OpticalElement(Logger):
         elif "transmission" in self.description and "reflectivity" in self.description:
             if "use" in self.description:
                 key = self.description["use"]["value"]
-                transmission = np.ones(self.wl.size) * self.description[key]["value"]
+                transmission = np.ones(self.wl.size) * to_number(
+                    self.description[key]["value"]
+                )
             else:
                 error_msg = (
                     "Both transmission and reflectivity are included but 'use' is not indicated"
@@ -218,9 +221,13 @@ class OpticalElement(Logger):
                 raise KeyError(error_msg)
         elif "transmission" in self.description or "reflectivity" in self.description:
             try:
-                transmission = np.ones(self.wl.size) * self.description["transmission"]["value"]
+                transmission = np.ones(self.wl.size) * to_number(
+                    self.description["transmission"]["value"]
+                )
             except KeyError:
-                transmission = np.ones(self.wl.size) * self.description["reflectivity"]["value"]
+                transmission = np.ones(self.wl.size) * to_number(
+                    self.description["reflectivity"]["value"]
+                )
                 self.debug(
                     f"Reflectivity keyword found for transmission for {self.name}"
                 )
@@ -284,7 +291,7 @@ class OpticalElement(Logger):
             # Create an interpolation function for emissivity
             em_func = interp1d(
                 self._get_data_wl(wl_colname),
-                self.description["data"][em_colname],
+                to_number(self.description["data"][em_colname]),
                 assume_sorted=False,
                 fill_value=0.0,
                 bounds_error=False,
@@ -293,7 +300,9 @@ class OpticalElement(Logger):
             emissivity = em_func(self.wl)
         elif "emissivity" in self.description:
             # Apply a constant emissivity value
-            emissivity = np.ones(self.wl.size) * self.description["emissivity"]["value"]
+            emissivity = np.ones(self.wl.size) * to_number(
+                self.description["emissivity"]["value"]
+            )
         elif self.type == "detector box":
             # Default emissivity for detector box is 1
             emissivity = np.ones(self.wl.size)
diff --git a/exorad/models/utils.py b/exorad/models/utils.py
index 5594e02..8775bf6 100644
--- a/exorad/models/utils.py
+++ b/exorad/models/utils.py
@@ -1,3 +1,6 @@
+import astropy.units as u
+
+
 def get_wl_col_name(data, description=None):
     wl_colname = None
     if description is not None and "wl_col_name" in description:
@@ -9,3 +12,14 @@ def get_wl_col_name(data, description=None):
     if wl_colname is None:
         raise KeyError("Wavelength column not found in transmission data file")
     return wl_colname
+
+
+def to_number(value):
+    """
+    Value, or values, of a quantity without dimension, whatever its unit is (as percent).
+    What has no unit, or one that is not known, is returned as it is.
+    """
+    unit = getattr(value, "unit", None)
+    if unit is None or isinstance(unit, u.UnrecognizedUnit):
+        return value
+    return u.Quantity(value).to_value(u.dimensionless_unscaled)
-- 
2.43.0


From 30199f06b3cddde8b2d01ab30d5f44162cbe73d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:14 +0000
Subject: [PATCH 73/81] fix: refuse a well depth in other units than those of
 the signal

---
 exorad/models/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index 1aa03a5..238748b 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -35,7 +35,7 @@ def frame_time(target, channel, out):
     ]
     out["saturation_time"] = (
         channel["detector"]["well_depth"]["value"] / max_signal_in_pix
-    )
+    ).to(u.s)
     logger.debug("saturation time : {}".format(out["saturation_time"]))
     if "frame_time" in channel["detector"].keys():
         out["frameTime"] = channel["detector"]["frame_time"][
-- 
2.43.0


From f4f916304e4423f193d5713c00a8a9f4d4e3f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:00 +0000
Subject: [PATCH 74/81] fix: refuse the PSF files that are not there

---
 exorad/utils/exolib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index a06d486..dd0fcd1 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -225,7 +225,9 @@ def binnedPSF(
 ):
     if filename:
         filename = os.path.expanduser(filename)
-    if filename and os.path.exists(filename):
+        if not os.path.exists(filename):
+            logger.error("PSF file not found: {}".format(filename))
+            raise OSError("PSF file not found: {}".format(filename))
         if filename[-5:] == ".fits":
             with fits.open(os.path.expanduser(filename)) as hdu:
                 ima = hdu[0].data
-- 
2.43.0


From 69d465c52600d45b019308bff0de72eb1157a3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:21 +0000
Subject: [PATCH 75/81] fix: observe through slits wider than the channel

---
 exorad/utils/diffuse_light_propagation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exorad/utils/diffuse_light_propagation.py b/exorad/utils/diffuse_light_propagation.py
index 9040c7e..40195a3 100644
--- a/exorad/utils/diffuse_light_propagation.py
+++ b/exorad/utils/diffuse_light_propagation.py
@@ -91,8 +91,11 @@ def convolve_with_slit(
     # whole pixels, also when their number is rounded just below
     slit_kernel = np.ones(int(slit_pixels * (1 + 1e-12)))
     signal_tmp = (
-        np.convolve(radiance.data * dwl_pic, slit_kernel, "same")
+        np.convolve(radiance.data * dwl_pic, slit_kernel, "full")
     ).to(u.count / u.s)
+    # the pixels of the channel, also when they are less than those of the slit
+    first = (slit_kernel.size - 1) // 2
+    signal_tmp = signal_tmp[first : first + wl_pix.size]
     logger.debug("signal_tmp: {}".format(signal_tmp))
     idx = [
         np.logical_and(wl_pix > wlow, wl_pix <= whigh)
-- 
2.43.0


From 41acccb5b70eec029ee439559f633c69a65496df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:14 +0000
Subject: [PATCH 76/81] fix: build spectrometers with a single bin of tabulated
 resolution

---
 exorad/models/instruments/spectrometer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 6060223..7b33a89 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -80,7 +80,8 @@ class Spectrometer(Instrument):
                 w2 = np.round((w1 + w1 / res), 4)
                 wl_bin = np.append(wl_bin, w2)
             if (
-                wl_max.value - wl_bin[-2] < (wl_bin[-2] - wl_bin[-3]) / 2.0
+                len(wl_bin) > 2
+                and wl_max.value - wl_bin[-2] < (wl_bin[-2] - wl_bin[-3]) / 2.0
             ):  # remove small bin at end of channel
                 wl_bin[-2] = wl_max.value
                 wl_bin = wl_bin[:-1]
-- 
2.43.0


From 8145ce6f5ce0798710f4e04e8a9a3767ac926251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:01 +0000
Subject: [PATCH 77/81] fix: count whole the bins of channels that end with one

---
 exorad/models/instruments/spectrometer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 7b33a89..b2cef20 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -51,12 +51,14 @@ class Spectrometer(Instrument):
                 )
             # fixed R
             else:
+                # a whole number of bins does not get one more for the rounding
                 number_of_spectral_bins = (
                     np.ceil(
                         np.log(wl_max / wl_min)
                         / np.log(
                             1.0 + 1.0 / self.description["targetR"]["value"]
                         )
+                        - 1e-9
                     )
                     + 1
                 )
-- 
2.43.0


From 8349dd154aa477b37914bf6efb62266a3e1535e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:31 +0000
Subject: [PATCH 78/81] fix: store the metadata given with lists and tables

write_list dropped its metadata and write_table ignored it, while the other
writing methods keep them as attributes of what they write.
---
 exorad/output/hdf5/hdf5.py | 7 ++++++-
 exorad/output/output.py    | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index b80a8a6..89c4b30 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -91,7 +91,12 @@ class HDF5OutputGroup(OutputGroup):
             table = table.copy(copy_data=False)
             table.convert_unicode_to_bytestring()
 
-        self._entry.create_dataset(str(table_name), data=table.as_array())
+        ds = self._entry.create_dataset(
+            str(table_name), data=table.as_array()
+        )
+        if metadata:
+            for k, v in metadata.items():
+                ds.attrs[k] = v
         header_yaml = meta.get_yaml_from_table(table)
 
         header_encoded = [h.encode("utf-8") for h in header_yaml]
diff --git a/exorad/output/output.py b/exorad/output/output.py
index 49945a6..0c37a49 100644
--- a/exorad/output/output.py
+++ b/exorad/output/output.py
@@ -95,7 +95,7 @@ class OutputGroup(Output, ABC):
 
     def write_list(self, list_name, list_array, metadata=None):
         arr = np.array(list_array)
-        self.write_array(list_name, arr)
+        self.write_array(list_name, arr, metadata)
 
     def write_scalar(self, scalar_name, scalar, metadata=None):
         raise NotImplementedError
-- 
2.43.0


From 6d253c22aaa33df2e456c0ff0231bcdabbd3e2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:28 +0000
Subject: [PATCH 79/81] fix: steps and size of PSF images along their own axes

The columns of an image, along which Fnum_x acts, are the first axis of a FITS
file, but were given the step, centre and size of the second one: the light of
an image that is not square, or has two steps, was spread the wrong way.
---
 exorad/utils/exolib.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index dd0fcd1..4da4b36 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -203,12 +203,12 @@ def planck(wl, T):
 
 
 def load_standard_psf(F_x, F_y, wl, delta_pix, hdr):
-    k_x = delta_pix / (F_x * wl * hdr["CDELT2"])
-    k_y = delta_pix / (F_y * wl * hdr["CDELT1"])
-    xmin = -(hdr["CRPIX2"] - 1) * F_x * wl * hdr["CDELT2"]
-    xmax = (hdr["NAXIS2"] - (hdr["CRPIX2"] - 1)) * F_x * wl * hdr["CDELT2"]
-    ymin = -(hdr["CRPIX1"] - 1) * F_y * wl * hdr["CDELT1"]
-    ymax = (hdr["NAXIS1"] - (hdr["CRPIX1"] - 1)) * F_y * wl * hdr["CDELT1"]
+    k_x = delta_pix / (F_x * wl * hdr["CDELT1"])
+    k_y = delta_pix / (F_y * wl * hdr["CDELT2"])
+    xmin = -(hdr["CRPIX1"] - 1) * F_x * wl * hdr["CDELT1"]
+    xmax = (hdr["NAXIS1"] - (hdr["CRPIX1"] - 1)) * F_x * wl * hdr["CDELT1"]
+    ymin = -(hdr["CRPIX2"] - 1) * F_y * wl * hdr["CDELT2"]
+    ymax = (hdr["NAXIS2"] - (hdr["CRPIX2"] - 1)) * F_y * wl * hdr["CDELT2"]
     extent = (xmin, xmax, ymin, ymax)
     return k_x, k_y, extent
 
@@ -288,10 +288,10 @@ def binnedPSF(
 
 
 def load_pixel_psf_size(delta_pix, hdr):
-    xmin = [-hdr["NAXIS2"] / 2.0 * delta_pix.value] * u.micron
-    xmax = [hdr["NAXIS2"] / 2.0 * delta_pix.value] * u.micron
-    ymin = [-hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
-    ymax = [hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
+    xmin = [-hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
+    xmax = [hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
+    ymin = [-hdr["NAXIS2"] / 2.0 * delta_pix.value] * u.micron
+    ymax = [hdr["NAXIS2"] / 2.0 * delta_pix.value] * u.micron
     extent = (xmin, xmax, ymin, ymax)
     return extent
 
-- 
2.43.0


From 3aaa1f2912f746c05bb1c1c7ca9c86a484dee87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:09 +0000
Subject: [PATCH 80/81] fix: size of pixel based images when pixels are not
 given in micron

The number of the pixel size was taken as micron whatever its unit.
---
 exorad/utils/exolib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 4da4b36..de31e90 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -288,10 +288,10 @@ def binnedPSF(
 
 
 def load_pixel_psf_size(delta_pix, hdr):
-    xmin = [-hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
-    xmax = [hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
-    ymin = [-hdr["NAXIS2"] / 2.0 * delta_pix.value] * u.micron
-    ymax = [hdr["NAXIS2"] / 2.0 * delta_pix.value] * u.micron
+    xmin = [-hdr["NAXIS1"] / 2.0 * delta_pix.to(u.micron).value] * u.micron
+    xmax = [hdr["NAXIS1"] / 2.0 * delta_pix.to(u.micron).value] * u.micron
+    ymin = [-hdr["NAXIS2"] / 2.0 * delta_pix.to(u.micron).value] * u.micron
+    ymax = [hdr["NAXIS2"] / 2.0 * delta_pix.to(u.micron).value] * u.micron
     extent = (xmin, xmax, ymin, ymax)
     return extent
 
-- 
2.43.0


From 18abb3673f42ea405ff6ca52b8c14bfc4a4123d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:32 +0000
Subject: [PATCH 81/81] fix: refuse signals of one time on grids of more times

---
 exorad/models/signal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exorad/models/signal.py b/exorad/models/signal.py
index f29861f..9a542c4 100644
--- a/exorad/models/signal.py
+++ b/exorad/models/signal.py
@@ -149,6 +149,9 @@ class Signal(Logger):
             self.error("dimension mismatch between wavelength grid and data")
             raise ValueError
         if self.time_grid.shape[0] > 1 or self.data.ndim > 1:
+            if self.data.ndim < 2:
+                self.error("data have no time axis")
+                raise ValueError
             if self.data.shape[1] - self.time_grid.shape[0] != 0:
                 self.error("dimension mismatch between time grid and data")
                 raise ValueError
-- 
2.43.0

