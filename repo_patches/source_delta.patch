From 2f712e5bb1877eb90e72777ddf1127f687794f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 01/29] fix: omit Q ranges by position so that repeated row
 labels lose no other points

---
 src/mcsas3/mc_data_1d.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index b0b32e9..ed1659f 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -113,11 +113,10 @@ class McData1D(McData):
             assert (
                 len(omitQRange) == 2
             ), "each omitQRange must contain two elements: a minimum and maximum value"
-            # we drop the matches:
-            self.clippedData.drop(
-                self.clippedData.query(f"{omitQRange[0]} <= Q < {omitQRange[1]}").index,
-                inplace=True,
-            )
+            # we drop the matches (by position, as row labels need not be unique):
+            self.clippedData = self.clippedData[
+                ~self.clippedData.eval(f"{omitQRange[0]} <= Q < {omitQRange[1]}")
+            ].copy()
 
     def reBin(
         self, nbins: Optional[int] = None, IEmin: Optional[float] = None, QEMin: float = 0.01
-- 
2.43.0


From 65b4a463e1f91c11272b87d054a5688ff6d411b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 02/29] fix: rebinning lost the smallest Q to rounding, and
 every point if all share one Q

---
 src/mcsas3/mc_data_1d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index ed1659f..8c76533 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -152,8 +152,10 @@ class McData1D(McData):
             }
         )
 
-        # add a little to the end to ensure the last datapoint is captured:
-        binEdges[-1] = binEdges[-1] + 1e-3 * (binEdges[-1] - binEdges[-2])
+        # the edges may be off by a rounding error, make sure the first datapoint is captured:
+        binEdges[0] = qMin
+        # .. and the last one, also if there is no width to widen (all points at the same Q):
+        binEdges[-1] = np.inf
 
         # now do the binning per bin.
         for binN in range(len(binEdges) - 1):
-- 
2.43.0


From 61cde8f5a98cf19f9b248951ab654d8de489fdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 03/29] fix: 2D clipping lost the last row and the last column
 of valid pixels

---
 src/mcsas3/mc_data_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_data_2d.py b/src/mcsas3/mc_data_2d.py
index c1f4842..14eebcc 100644
--- a/src/mcsas3/mc_data_2d.py
+++ b/src/mcsas3/mc_data_2d.py
@@ -103,11 +103,11 @@ class McData2D(McData):
         # find crop envelope:
         Q0Lim = (
             np.argwhere(withinLimits.sum(axis=1) > 0).min(),
-            np.argwhere(withinLimits.sum(axis=1) > 0).max(),
+            np.argwhere(withinLimits.sum(axis=1) > 0).max() + 1,  # upper end is exclusive
         )
         Q1Lim = (
             np.argwhere(withinLimits.sum(axis=0) > 0).min(),
-            np.argwhere(withinLimits.sum(axis=0) > 0).max(),
+            np.argwhere(withinLimits.sum(axis=0) > 0).max() + 1,  # upper end is exclusive
         )
         assert Q0Lim[0] < Q0Lim[1], "Could not determine valid crop limits for axis 0 (y)"
         assert Q1Lim[0] < Q1Lim[1], "Could not determine valid crop limits for axis 1 (x)"
-- 
2.43.0


From f5824e95aeb0650694fac33cadcc3f48d9b9482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 04/29] fix: 2D clipping kept pixels outside the limits inside
 the cropped frame, and NaN intensities

---
 src/mcsas3/mc_data_2d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mcsas3/mc_data_2d.py b/src/mcsas3/mc_data_2d.py
index 14eebcc..52e38da 100644
--- a/src/mcsas3/mc_data_2d.py
+++ b/src/mcsas3/mc_data_2d.py
@@ -121,9 +121,10 @@ class McData2D(McData):
         self.clippedData["Q1Crop2D"] = Q1[Q0Lim[0] : Q0Lim[1], Q1Lim[0] : Q1Lim[1]]
 
         self.clippedData["kansas"] = self.clippedData["I2D"].shape
-        # remove infinite intensities and zero-uncertainty datapoints as well (add to mask):
-        bArr = np.invert((np.isinf(self.clippedData["I2D"]) | (self.clippedData["ISigma2D"] == 0)))
-        self.clippedData["invMask"] = bArr * np.invert(self.clippedData["mask2D"]).astype(bool)
+        # remove non-finite intensities and zero-uncertainty datapoints as well (add to mask):
+        bArr = np.isfinite(self.clippedData["I2D"]) & (self.clippedData["ISigma2D"] != 0)
+        # .. and the pixels of the cropped frame which are masked or outside the limits:
+        self.clippedData["invMask"] = bArr & withinLimits[Q0Lim[0] : Q0Lim[1], Q1Lim[0] : Q1Lim[1]]
 
         self.clippedData["I"] = (self.clippedData["I2D"][self.clippedData["invMask"]]).flatten()
         self.clippedData["ISigma"] = (
-- 
2.43.0


From 255930ca6ef47f5973b8f62c7df7a4f0bb335585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 05/29] fix: linking the raw data of a 2D dataset raised a
 KeyError

---
 src/mcsas3/mc_data_2d.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mcsas3/mc_data_2d.py b/src/mcsas3/mc_data_2d.py
index 52e38da..fb2cba2 100644
--- a/src/mcsas3/mc_data_2d.py
+++ b/src/mcsas3/mc_data_2d.py
@@ -61,6 +61,12 @@ class McData2D(McData):
             " or 'binnedData'"
         )
         measDataObj = getattr(self, measDataLink)
+        if measDataLink == "rawData":  # a DataFrame with the components of Q in separate columns
+            measDataObj = dict(
+                Q=[measDataObj["Qy"].values, measDataObj["Qx"].values],
+                I=measDataObj["I"].values,
+                ISigma=measDataObj["ISigma"].values,
+            )
         self.measData = dict(
             Q=[
                 measDataObj["Q"][0] + self.qNudge[0],
-- 
2.43.0


From b8cec82eb09ee6b657788939e414c9419be7e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 06/29] fix: reading 2D data failed if the vanishing Q
 dimension is not the last one

---
 src/mcsas3/mc_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_data.py b/src/mcsas3/mc_data.py
index 1be7217..6819130 100644
--- a/src/mcsas3/mc_data.py
+++ b/src/mcsas3/mc_data.py
@@ -280,8 +280,8 @@ class McData:
                 [self.rawData["Q"][i, :, :].any() for i in range(self.rawData["Q"].shape[0])]
             )
             self.rawData["Q"] = self.rawData["Q"][QxyIndices, :, :].squeeze()
-            self.rawData["Qx"] = self.rawData["Q"][QxyIndices[1], :, :].squeeze()
-            self.rawData["Qy"] = self.rawData["Q"][QxyIndices[0], :, :].squeeze()
+            self.rawData["Qx"] = self.rawData["Q"][1, :, :]  # Q now has the nonzero dimensions only
+            self.rawData["Qy"] = self.rawData["Q"][0, :, :]
             self.rawData2D = self.rawData.copy()  # intermediate storage of original data
             # but we also need to prepare a Pandas-compatible list-format data
             del self.rawData["Q"]
-- 
2.43.0


From beddd4c9ed3e912b66791b4d1652c820d04d937c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 07/29] fix: storing a value replaces whatever its location in
 the result file held before

---
 src/mcsas3/mc_hdf.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 19db19a..205e9d5 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -107,13 +107,18 @@ def storeKV(filename: Path, path: PurePosixPath, value=None) -> None:
     assert path is not None, "HDF5 path cannot be empty"
 
     if isinstance(value, (dict, pandas.DataFrame)):
+        # replace all that was stored there before, also entries not in the new value:
+        with h5py.File(filename, "a") as h5f:
+            if str(path) in h5f:
+                del h5f[str(path)]
+            h5f.create_group(str(path))
         storeKVPairs(filename, path, value.items())
         return
 
     path, key = path.parent, path.name
     with h5py.File(filename, "a") as h5f:
         h5g = h5f.require_group(str(path))
-        dset, unit = None, None
+        unit = None
         if isinstance(value, pint.Quantity):
             value, unit = value.m, value.u
         if isinstance(value, Path):
@@ -126,18 +131,11 @@ def storeKV(filename: Path, path: PurePosixPath, value=None) -> None:
             if str(value.dtype).startswith("<U") or str(value.dtype).startswith("object"):
                 value = value.astype(h5py.special_dtype(vlen=str))
 
-            try:
-                dset = h5g.require_dataset(key, data=value, shape=value.shape, dtype=value.dtype)
-            except TypeError:
-                del h5g[key]
-                dset = h5g.require_dataset(key, data=value, shape=value.shape, dtype=value.dtype)
-
-        elif value is not None:
-            dset = h5g.get(key, None)
-            if dset is None:
-                dset = h5g.create_dataset(key, data=value)
-            else:
-                dset[()] = value
-
+        # whatever was stored there before may differ in type and shape, and must not remain:
+        if key in h5g:
+            del h5g[key]
+        if value is None:
+            return
+        dset = h5g.create_dataset(key, data=value)
         if unit is not None:
             dset.attrs["unit"] = str(unit)
-- 
2.43.0


From 4d063e9bf23276a28af3b61166907a00493cfa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 08/29] fix: text columns of a table could not be stored
 (pandas string dtype)

---
 src/mcsas3/mc_hdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 205e9d5..964af93 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -125,9 +125,9 @@ def storeKV(filename: Path, path: PurePosixPath, value=None) -> None:
             value = value.as_posix()
         if isinstance(value, pandas.Timestamp):
             value = value.timestamp()
-        if isinstance(value, (list, tuple)):
+        if isinstance(value, (list, tuple, pandas.Series)):
             value = np.array(value)
-        if isinstance(value, (np.ndarray, pandas.Series)):
+        if isinstance(value, np.ndarray):
             if str(value.dtype).startswith("<U") or str(value.dtype).startswith("object"):
                 value = value.astype(h5py.special_dtype(vlen=str))
 
-- 
2.43.0


From dfe66ba86615c62d4b8b1aeaa18a172f237612d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 09/29] fix: text in stored mappings and lists was loaded as
 bytes, deeper nesting not at all

---
 src/mcsas3/mc_hdf.py | 45 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 964af93..5194728 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -32,13 +32,25 @@ class ResultIndex(object):
         return PurePosixPath(f"/analyses/MCResult{self.resultIndex}")
 
 
+def readValue(item):
+    """Value of a HDF5 dataset with text decoded, or the (nested) dict of a HDF5 group"""
+    if isinstance(item, h5py.Group):
+        return {key: readValue(subItem) for key, subItem in item.items()}
+    value = item[()]
+    if isinstance(value, (bytes, bytearray)):
+        return value.decode()
+    if h5py.check_string_dtype(item.dtype) is not None:
+        return np.array([i.decode() for i in value.flat], dtype=str).reshape(value.shape)
+    return value
+
+
 def loadKVPairs(filename: Path, path: PurePosixPath, keys: Iterable) -> Iterable:
     """Load key-value pairs from HDF5 file"""
     assert filename is not None
     assert path is not None
     with h5py.File(filename, "r") as h5f:
         for key in keys:
-            yield key, h5f[str(path / key)][()]
+            yield key, readValue(h5f[str(path / key)])
 
 
 def loadKV(filename: Path, path: PurePosixPath, datatype=None, default=None, dbg=False):
@@ -50,31 +62,12 @@ def loadKV(filename: Path, path: PurePosixPath, datatype=None, default=None, dbg
         if path not in h5f:
             return default
 
-    if datatype is None or datatype == "str" or inspect.isclass(datatype):
-        with h5py.File(filename, "r") as h5f:
-            value = h5f[path][()]
-        if (datatype == "str" or datatype == Path) and not isinstance(value, str):
-            if isinstance(value, (bytes, bytearray)):
-                value = value.decode()
-            else:
-                value = str(value)
-        if inspect.isclass(datatype):
-            value = datatype(value)
-
-    elif datatype in ("dict", "dictToPandas"):
-        value = {}
-        with h5py.File(filename, "r") as h5f:
-            for key, keyValue in h5f[path].items():
-                if isinstance(keyValue, h5py.Group):
-                    subDict = {}
-                    for gkey, gValue in keyValue.items():
-                        subDict.update({gkey: gValue[()]})
-                    value.update({key: subDict})
-                else:
-                    value.update({key: keyValue[()]})
-                    if isinstance(keyValue[()], np.ndarray):
-                        if isinstance(keyValue[()][0], bytes):
-                            value.update({key: np.array([i.decode() for i in keyValue[()]])})
+    with h5py.File(filename, "r") as h5f:
+        value = readValue(h5f[path])
+    if (datatype == "str" or datatype == Path) and not isinstance(value, str):
+        value = str(value)
+    if inspect.isclass(datatype):
+        value = datatype(value)
 
     if datatype == "dictToPandas":
         cols, idx, vals = (
-- 
2.43.0


From c8c30d4ea0c645a274ac7327a966593f9d79f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 10/29] fix: the result index was always reset to 1, so all
 results went to the same entry

---
 src/mcsas3/mc_hdf.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 5194728..385d40c 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -24,9 +24,6 @@ class ResultIndex(object):
         ],
     )
 
-    def __attrs_post_init__(self, resultIndex: int = 1):
-        self.resultIndex = resultIndex
-
     @property
     def nxsEntryPoint(self):
         return PurePosixPath(f"/analyses/MCResult{self.resultIndex}")
-- 
2.43.0


From 62ed05de7f34a73ec923ade7ec09155877acc6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 11/29] fix: running an optimization stored part of its results
 under index 1 by default

---
 src/mcsas3/mc_hat.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 864be0b..557f68e 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -93,10 +93,12 @@ class McHat:
                     np.pi / np.min(measData["Q"]),
                 ]
 
-    def run(self, measData: dict, filename: Path, resultIndex: int = 1) -> None:
+    def run(self, measData: dict, filename: Path, resultIndex: Optional[int] = None) -> None:
         """runs the full sequence: multiple repetitions of optimizations, to be parallelized.
         This probably needs to be taken out of core, and into a new parent"""
 
+        if resultIndex is None:  # the one this instance was set up with
+            resultIndex = self.resultIndex.resultIndex
         # ensure the fit parameter limits are filled in based on the data limits if auto
         self.fillFitParameterLimits(measData)
 
@@ -135,10 +137,12 @@ class McHat:
         filename: Path,
         repetition: int = 0,
         bufferStdIO: bool = False,
-        resultIndex: int = 1,
+        resultIndex: Optional[int] = None,
     ) -> None:
         """runs the full sequence: multiple repetitions of optimizations, to be parallelized.
         This probably needs to be taken out of core, and into a new parent"""
+        if resultIndex is None:  # the one this instance was set up with
+            resultIndex = self.resultIndex.resultIndex
         if bufferStdIO:
             # buffer stdout/err in an individual StringIO object for each repetition
             sys.stderr = sys.stdout = StringIO()
-- 
2.43.0


From 661dcd11b4ea7ab48b5b8a32e3d635efb90ff830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 12/29] fix: acceptance history listed the goodness of fit
 before the accepted step

---
 src/mcsas3/mc_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_core.py b/src/mcsas3/mc_core.py
index 1907d81..224ccda 100644
--- a/src/mcsas3/mc_core.py
+++ b/src/mcsas3/mc_core.py
@@ -204,10 +204,10 @@ class McCore:
         newGof = self.reEvaluate()  # 2 ms
         # if this is an improvement:
         if newGof < self._opt.gof:
+            # store the new GOF as current, accepting adds it to the history:
+            self._opt.gof = newGof
             # accept the move:
             self.accept()  # 500 µs
-            # and store the new GOF as current:
-            self._opt.gof = newGof
         # increment step counter in either case:
         self._opt.step += 1
 
-- 
2.43.0


From 8bb80bd9f64dbc10d15e7d74c6fe270f4b7209fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 13/29] fix: automatic fit limits were written into the
 caller's configuration and stuck to later runs

---
 src/mcsas3/mc_hat.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 557f68e..2fc95a5 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -30,6 +30,7 @@ class McHat:
 
     _measData = None  # measurement data dict with entries for Q, I, ISigma
     _modelArgs = None  # dict with settings to be passed on to the model instance
+    _fitParameterLimits = None  # the fit parameter limits as configured, possibly "auto"
     _optArgs = None  # dict with optimization settings to be passed on to the optimization instance
     _model = None  # McModel instance for multiple repetitions
     _opt = None  # McOpt instance for multiple repetitions
@@ -71,6 +72,7 @@ class McHat:
             [(key, kwargs.pop(key)) for key in McModel.settables if key in kwargs]
         )
         self._modelArgs.update({"resultIndex": resultIndex})
+        self._fitParameterLimits = self._modelArgs.get("fitParameterLimits")  # as configured
 
         for key, value in kwargs.items():
             assert key in self.storeKeys, "Key {} is not a valid option".format(key)
@@ -78,7 +80,10 @@ class McHat:
         assert self.nRep > 0, "Must optimize for at least one repetition"
 
     def fillFitParameterLimits(self, measData: dict) -> None:
-        for key, val in self._modelArgs["fitParameterLimits"].items():
+        # a copy, other data need their own limits: neither the configuration of the caller
+        # nor the one of this instance is modified
+        limits = dict(self._fitParameterLimits)
+        for key, val in limits.items():
             if isinstance(val, str):
                 assert val == "auto", (
                     "Only fit parameter options are either providing [min, max] limits or setting"
@@ -88,10 +93,12 @@ class McHat:
                 assert (
                     np.min(measData["Q"]) > 0
                 ), "for auto-scaling of measurement limits, the smallest Q value cannot be zero"
-                self._modelArgs["fitParameterLimits"][key] = [
+                limits[key] = [
                     np.pi / np.max(measData["Q"]),
                     np.pi / np.min(measData["Q"]),
                 ]
+        self._modelArgs["fitParameterLimits"] = limits
+        self._model = None  # a model of an earlier run has the limits of that run
 
     def run(self, measData: dict, filename: Path, resultIndex: Optional[int] = None) -> None:
         """runs the full sequence: multiple repetitions of optimizations, to be parallelized.
-- 
2.43.0


From 469af418f005cd9b417345c2af6bbfebac11d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 14/29] fix: negative mean intensity gave inverted background
 limits, limits given by the user were ignored

---
 src/mcsas3/osb.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mcsas3/osb.py b/src/mcsas3/osb.py
index 84afa8c..9cd7a99 100644
--- a/src/mcsas3/osb.py
+++ b/src/mcsas3/osb.py
@@ -46,14 +46,11 @@ class optimizeScalingAndBackground(object):
         self.measDataI = measDataI
         self.measDataISigma = measDataISigma
         self.validate()
+        self.xBounds = xBounds
         if xBounds is None:
-            self.xBounds = [
-                [0, None],
-                [
-                    -self.measDataI[np.isfinite(self.measDataI)].mean(),
-                    self.measDataI[np.isfinite(self.measDataI)].mean(),
-                ],
-            ]
+            # the mean may be negative, for background-subtracted data for example
+            bgndLimit = abs(self.measDataI[np.isfinite(self.measDataI)].mean())
+            self.xBounds = [[0, None], [-bgndLimit, bgndLimit]]
             # [self.measDataI[np.isfinite(self.measDataI)].min(),
             # self.measDataI[np.isfinite(self.measDataI)].max()]]
 
@@ -68,8 +65,11 @@ class optimizeScalingAndBackground(object):
             sc = 1.0  # auto-determination failed, but we need to stay within bounds
         # x0 = np.array([self.measDataI.mean() / optI.mean(), self.measDataI.min()])
         # sc = ((self.measDataI) / optI).mean()
-        bgnd = np.clip(bgnd, self.xBounds[1][0], self.xBounds[1][1])
-        return np.array([sc, bgnd])
+        guess = []
+        for value, (lower, upper) in zip((sc, bgnd), self.xBounds):
+            value = value if lower is None else max(value, lower)
+            guess += [value if upper is None else min(value, upper)]
+        return np.array(guess)
 
     def validate(self):
         # checks input
-- 
2.43.0


From ddd9475e215a88cefe69ba18d2a98d939c6bf9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 15/29] fix: the built-in sphere model ignored picked
 scattering length densities

---
 src/mcsas3/mc_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index db806c2..c30166d 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -73,12 +73,15 @@ class mcsasSphereModel(object):
     def kernelfunc(self, **parDict: dict) -> Tuple[np.ndarray, np.ndarray]:
         # print('stop here. see what we have. return I, V')
         qr = self.measQ[0] * parDict["radius"]
+        # given parameters, in particular picked ones, take precedence over those set up initially
+        sld = parDict.get("sld", self.sld)
+        sld_solvent = parDict.get("sld_solvent", self.sld_solvent)
         F = 3.0 * (np.sin(qr) - qr * np.cos(qr)) / (qr**3.0)
         V = (np.pi * 4.0 / 3.0) * parDict["radius"] ** 3
         Int = (
             V**2
             # * self.scale
-            * ((self.sld - self.sld_solvent) / 1e2)
+            * ((sld - sld_solvent) / 1e2)
             ** 2  # WARNING: CONVERSION FACTOR PRESENT (1e2) to convert from 1/A^2 to 1/nm^2!!!
             * F**2
         )
-- 
2.43.0


From d61539860cae7cfa3aea7602bb652501a1c47b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 16/29] fix: a 1D dataset loaded from a result file lost its
 data range, Q nudge, paths and reader options

---
 src/mcsas3/mc_data.py    | 9 ++++-----
 src/mcsas3/mc_data_1d.py | 4 +++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mcsas3/mc_data.py b/src/mcsas3/mc_data.py
index 6819130..80e02ef 100644
--- a/src/mcsas3/mc_data.py
+++ b/src/mcsas3/mc_data.py
@@ -82,7 +82,9 @@ class McData:
             "binning": "str",
             "dataRange": None,  # not sure what this is.. array?
             "csvargs": "dict",
+            "pathDict": "dict",
             "loader": "str",
+            "qNudge": None,
             "omitQRanges": list,  # not sure if this works?
         }
     )
@@ -333,11 +335,8 @@ class McData:
             path = self.resultIndex.nxsEntryPoint / "mcdata"
         for key, datatype in self.loadKeys.items():
             value = loadKV(filename, path / key, datatype=datatype, default=None, dbg=True)
-            if key == "csvargs":
-                self.csvargs.update(value)
-            else:
-                if value is not None:
-                    setattr(self, key, value)
+            if value is not None:
+                setattr(self, key, value)
         # load rawData if availalbe in the result file
         try:
             self.rawData = pandas.DataFrame(
diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index 8c76533..12cc5f0 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -24,7 +24,7 @@ class McData1D(McData):
         resultIndex: int = 1,
         **kwargs: dict,
     ) -> None:
-        super().__init__(loadFromFile=loadFromFile, resultIndex=resultIndex, **kwargs)
+        super().__init__(resultIndex=resultIndex, **kwargs)  # loading is done below
         self.csvargs = {
             "sep": r"\s+",
             "header": None,
@@ -32,6 +32,8 @@ class McData1D(McData):
         }  # default for 1D, overwritten in subclass
         self.dataRange = [-np.inf, np.inf]  # min-max for data range to fit
         self.qNudge = 0  # nudge in case of misaligned centers. Applied to measData
+        if loadFromFile is not None:  # after setting the defaults which it replaces
+            self.load(loadFromFile)
         self.processKwargs(**kwargs)  # redo kwargs in case the reset values have been updated
 
         # load from dataframe if provided
-- 
2.43.0


From c1313387ccc0e9ee1aff4981d4379f649f32c221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 17/29] fix: options given as None (header, separator) were
 lost when a mapping was stored

---
 src/mcsas3/mc_hdf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 385d40c..4932b99 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -34,6 +34,8 @@ def readValue(item):
     if isinstance(item, h5py.Group):
         return {key: readValue(subItem) for key, subItem in item.items()}
     value = item[()]
+    if isinstance(value, h5py.Empty):  # None within a mapping
+        return None
     if isinstance(value, (bytes, bytearray)):
         return value.decode()
     if h5py.check_string_dtype(item.dtype) is not None:
@@ -102,7 +104,10 @@ def storeKV(filename: Path, path: PurePosixPath, value=None) -> None:
             if str(path) in h5f:
                 del h5f[str(path)]
             h5f.create_group(str(path))
-        storeKVPairs(filename, path, value.items())
+            # None is one of the values in a mapping, it is not the same as a missing key:
+            for key in [key for key, subValue in value.items() if subValue is None]:
+                h5f[str(path / key)] = h5py.Empty("f")
+        storeKVPairs(filename, path, [kv for kv in value.items() if kv[1] is not None])
         return
 
     path, key = path.parent, path.name
-- 
2.43.0


From b0b89b6e8a3bcc8a5a201a173e817da0f8b803a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 18/29] fix: parameters of an earlier result remained in the
 stored limits and static parameters

---
 src/mcsas3/mc_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index c30166d..313162a 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -485,8 +485,9 @@ class McModel:
         assert filename is not None
 
         path = self.resultIndex.nxsEntryPoint / "model"
-        storeKVPairs(filename, path / "fitParameterLimits", self.fitParameterLimits.items())
-        storeKVPairs(filename, path / "staticParameters", self.staticParameters.items())
+        # replacing all of an earlier result, also parameters not used anymore:
+        storeKV(filename, path=path / "fitParameterLimits", value=self.fitParameterLimits)
+        storeKV(filename, path=path / "staticParameters", value=self.staticParameters)
         storeKV(filename, path=path / "modelName", value=str(self.modelName))  # store modelName
 
         psDict = self.parameterSet.copy().to_dict(orient="split")
-- 
2.43.0


From 75668a5bfd0e991f0fb2713fb7edda6d7bbc2d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 19/29] fix: loading and continuing a repetition altered its
 acceptance history

---
 src/mcsas3/mc_core.py | 5 +++--
 src/mcsas3/mc_opt.py  | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_core.py b/src/mcsas3/mc_core.py
index 224ccda..0907897 100644
--- a/src/mcsas3/mc_core.py
+++ b/src/mcsas3/mc_core.py
@@ -96,8 +96,9 @@ class McCore:
         # store the initial background and scaling optimization as new initial guess:
         self._opt.x0 = self._opt.testX0
 
-        self._opt.acceptedSteps += [0]
-        self._opt.acceptedGofs += [self._opt.gof]
+        if loadFromFile is None:  # a loaded history has its starting point already
+            self._opt.acceptedSteps += [0]
+            self._opt.acceptedGofs += [self._opt.gof]
         return  # one of the following tests always fails for test data, what's the purpose?
         # the hope was to test that the previously stored optimization result still
         # gives the same answer for GOF and scaling/background
diff --git a/src/mcsas3/mc_opt.py b/src/mcsas3/mc_opt.py
index 31c3cdd..9dda0c6 100644
--- a/src/mcsas3/mc_opt.py
+++ b/src/mcsas3/mc_opt.py
@@ -111,4 +111,6 @@ class McOpt:
         if path is None:
             path = self.resultIndex.nxsEntryPoint / "optimization" / f"repetition{repetition}"
         for key, value in loadKVPairs(filename, path, self.loadKeys):
+            if key in ("acceptedSteps", "acceptedGofs"):
+                value = list(value)  # to be extended, not added to, when continuing
             setattr(self, key, value)
-- 
2.43.0


From 0a5776b2b0a43e685ac07ef0906b7e586ebe3a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 20/29] fix: repetitions started from the scaling and
 background of the previous one

---
 src/mcsas3/mc_hat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 2fc95a5..8a60ac6 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -159,6 +159,7 @@ class McHat:
             self._model = McModel(**self._modelArgs)
 
         self._opt.repetition = repetition
+        self._opt.x0 = self._optArgs.get("x0")  # not the result of another repetition
         self._model.resetParameterSet()
         mc = McCore(measData, model=self._model, opt=self._opt, resultIndex=resultIndex)
         mc.optimize()
-- 
2.43.0


From 6ca7a492f428f5a9ce18e69dc44fa2031e24dec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 21/29] fix: with a seed, parallel repetitions all drew the
 same random sequence

---
 src/mcsas3/mc_hat.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 8a60ac6..5d2dfea 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -156,7 +156,12 @@ class McHat:
         if self._opt is None:
             self._opt = McOpt(**self._optArgs)
         if self._model is None:
-            self._model = McModel(**self._modelArgs)
+            modelArgs = dict(self._modelArgs)
+            seed = modelArgs.get("seed", McModel.seed)
+            if isinstance(seed, (int, np.integer)):
+                # parallel workers start with a new model each, their random sequences must differ
+                modelArgs["seed"] = int(seed) + repetition
+            self._model = McModel(**modelArgs)
 
         self._opt.repetition = repetition
         self._opt.x0 = self._optArgs.get("x0")  # not the result of another repetition
-- 
2.43.0


From 64e61402bcbd5a9f704870bc7cebc7eb7934e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 22/29] fix: results of an earlier analysis remained among the
 stored histograms

---
 src/mcsas3/mc_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_analysis.py b/src/mcsas3/mc_analysis.py
index 28508fb..a9ccac2 100644
--- a/src/mcsas3/mc_analysis.py
+++ b/src/mcsas3/mc_analysis.py
@@ -8,7 +8,7 @@ import matplotlib.pyplot as plt
 import numpy as np
 import pandas
 
-from mcsas3.mc_hdf import ResultIndex, storeKVPairs
+from mcsas3.mc_hdf import ResultIndex, storeKV, storeKVPairs
 
 from .mc_core import McCore
 from .mc_model_histogrammer import McModelHistogrammer
@@ -187,6 +187,8 @@ class McAnalysis:
                 self._core, self._histRanges, resultIndex=resultIndex
             )  # switched from supplying model instance, to supplying complete core instance.
             if store:
+                if repi == 0:  # no ranges or repetitions of an earlier analysis shall remain
+                    storeKV(inputFile, self.resultIndex.nxsEntryPoint / "histograms", {})
                 mh.store(inputFile, repetition)
 
             # tabulate the necessary optimization parameters:
-- 
2.43.0


From f48e6d72c6d9c83fc548dc00aa44f7f09fef70f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 23/29] fix: a repetition's model was stored under another
 index than its optimization

---
 src/mcsas3/mc_core.py | 1 +
 src/mcsas3/mc_hat.py  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_core.py b/src/mcsas3/mc_core.py
index 0907897..af3bebf 100644
--- a/src/mcsas3/mc_core.py
+++ b/src/mcsas3/mc_core.py
@@ -241,6 +241,7 @@ class McCore:
         ready for histogramming"""
 
         self._outputFilename = filename
+        self._model.resultIndex = self.resultIndex  # next to the optimization
         self._model.store(filename=self._outputFilename, repetition=self._opt.repetition)
         self._opt.store(
             filename=self._outputFilename,
diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 5d2dfea..bbf0575 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -182,7 +182,7 @@ class McHat:
             STORE_LOCK.acquire()
         try:
             mc.store(filename=filename)
-            self.store(filename=filename)
+            self.store(filename=filename, path=mc.resultIndex.nxsEntryPoint / "optimization")
         except Exception as e:
             print(f"{mc}: {e}: {str(e)}\n")
         finally:
-- 
2.43.0


From 53c530190da937b32e4f10c9e55aa12772e3380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 24/29] fix: the input data file was deleted if its path was
 spelled differently as result file

---
 src/mcsas3/cli_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/cli_tools.py b/src/mcsas3/cli_tools.py
index 430e413..aafbc27 100644
--- a/src/mcsas3/cli_tools.py
+++ b/src/mcsas3/cli_tools.py
@@ -41,7 +41,8 @@ class McSAS3_cli_optimize(object):
         if self.resultFile.is_file():
             # only remove result file if it is not the main file!
             # This way, you can add McSAS to an existing nexus file
-            if (self.resultFile != self.dataFile) & (self.deleteIfExists):
+            # the same file can be spelled differently (relative, dotted or linked paths)
+            if self.deleteIfExists and not self.resultFile.samefile(self.dataFile):
                 self.resultFile.unlink()
         # read the configuration file
         with open(self.readConfigFile, "r") as f:
-- 
2.43.0


From 2da52d63079d61eddd7190822ed2dc8cdb97695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 25/29] fix: the main entry point always failed with a
 TypeError instead of running

---
 src/mcsas3/__main__.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/mcsas3/__main__.py b/src/mcsas3/__main__.py
index 3ff3841..cd1a526 100644
--- a/src/mcsas3/__main__.py
+++ b/src/mcsas3/__main__.py
@@ -114,25 +114,23 @@ if __name__ == "__main__":
 
     adict = vars(args)
     # split arguments into two dictionaries, one for the optimizer and one for the histogrammer
-    adict_optimize = [
-        {
-            k: v
-            for k, v in adict.items()
-            if k
-            in [
-                "dataFile",
-                "resultFile",
-                "readConfigFile",
-                "runConfigFile",
-                "resultIndex",
-                "deleteIfExists",
-                "nThreads",
-            ]
-        }
-    ]
-    adict_histogram = [
-        {k: v for k, v in adict.items() if k in ["resultFile", "histConfigFile", "resultIndex"]}
-    ]
+    adict_optimize = {
+        k: v
+        for k, v in adict.items()
+        if k
+        in [
+            "dataFile",
+            "resultFile",
+            "readConfigFile",
+            "runConfigFile",
+            "resultIndex",
+            "deleteIfExists",
+            "nThreads",
+        ]
+    }
+    adict_histogram = {
+        k: v for k, v in adict.items() if k in ["resultFile", "histConfigFile", "resultIndex"]
+    }
     try:
         McSAS3_cli_optimize(**adict_optimize)
         McSAS3_cli_histogram(**adict_histogram)
-- 
2.43.0


From 1f0e3c30eb29c3729ef3b2213e651d9f10e7abf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 26/29] fix: static parameters of one built-in model became the
 defaults of all later ones

---
 src/mcsas3/mc_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index 313162a..55ea89f 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -23,7 +23,7 @@ class sphereParameters(object):
     }
 
     def __init__(self) -> None:
-        pass
+        self.defaults = dict(self.defaults)  # updated with the static parameters of a model
 
 
 # ibid.
@@ -32,7 +32,7 @@ class sphereInfo(object):
     parameters = sphereParameters()
 
     def __init__(self) -> None:
-        pass
+        self.parameters = sphereParameters()
 
 
 class mcsasSphereModel(object):
@@ -101,7 +101,7 @@ class simParameters(object):
     }
 
     def __init__(self):
-        pass
+        self.defaults = dict(self.defaults)  # updated with the static parameters of a model
 
 
 # ibid.
@@ -110,7 +110,7 @@ class simInfo(object):
     parameters = simParameters()
 
     def __init__(self):
-        pass
+        self.parameters = simParameters()
 
 
 # ibid.
-- 
2.43.0


From 437abd5fa835d3d326680d51b01814eb37e115f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 27/29] fix: an analysis changed the histogram ranges of the
 caller and of other analyses

---
 src/mcsas3/mc_analysis.py           | 1 +
 src/mcsas3/mc_model_histogrammer.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_analysis.py b/src/mcsas3/mc_analysis.py
index a9ccac2..cf06556 100644
--- a/src/mcsas3/mc_analysis.py
+++ b/src/mcsas3/mc_analysis.py
@@ -186,6 +186,7 @@ class McAnalysis:
             mh = McModelHistogrammer(
                 self._core, self._histRanges, resultIndex=resultIndex
             )  # switched from supplying model instance, to supplying complete core instance.
+            self._histRanges = mh._histRanges  # including the range limits
             if store:
                 if repi == 0:  # no ranges or repetitions of an earlier analysis shall remain
                     storeKV(inputFile, self.resultIndex.nxsEntryPoint / "histograms", {})
diff --git a/src/mcsas3/mc_model_histogrammer.py b/src/mcsas3/mc_model_histogrammer.py
index d2ff95b..4ffc07c 100644
--- a/src/mcsas3/mc_model_histogrammer.py
+++ b/src/mcsas3/mc_model_histogrammer.py
@@ -93,7 +93,7 @@ class McModelHistogrammer:
         ), "the core does not have a valid optimization instance set"
         self._model = coreInstance._model
         self._opt = coreInstance._opt  # we need this for the scaling factor.
-        self._histRanges = histRanges
+        self._histRanges = histRanges.copy()  # the range limits used here are added to it
 
         for histIndex, histRange in histRanges.iterrows():
             # does the model have that parameter?
-- 
2.43.0


From f3eb13f5cda032d7fd468c5334b90910347f9f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 28/29] fix: creating a simulation model changed the static
 parameters of the caller

---
 src/mcsas3/mc_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index 55ea89f..49c62ad 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -540,7 +540,7 @@ class McModel:
     def loadSimModel(self) -> None:
         if "simDataQ1" not in self.staticParameters.keys():
             # if it was None when written, it might not exist when loading
-            self.staticParameters.update({"simDataQ1": None})
+            self.staticParameters = dict(self.staticParameters, simDataQ1=None)
 
         self.func = McSimPseudoModel(
             extrapY0=self.staticParameters["extrapY0"],
-- 
2.43.0


From 3b2ea10694bb67a63b80cd2d298bc269e0237522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 29/29] fix: the result card showed other ranges' histograms if
 labels were not 0,1,.. and failed for automatic bins

---
 src/mcsas3/mc_plot.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mcsas3/mc_plot.py b/src/mcsas3/mc_plot.py
index 329df55..913389a 100644
--- a/src/mcsas3/mc_plot.py
+++ b/src/mcsas3/mc_plot.py
@@ -82,7 +82,7 @@ class McPlot:
 
         # histogram:
         for n, key in enumerate(mcres._averagedHistograms.keys()):
-            histDataFrame = mcres._averagedHistograms[n]
+            histDataFrame = mcres._averagedHistograms[key]
             plt.sca(ahs[1, 1 + n])
             plt.bar(
                 histDataFrame["xMean"],
@@ -91,14 +91,15 @@ class McPlot:
                 width=histDataFrame["xWidth"],
                 yerr=histDataFrame["yStd"],
             )
-            plt.xscale(mcres._histRanges.loc[n, "binScale"])
-            plt.xlabel(mcres._histRanges.loc[n, "parameter"])
+            # 'auto' sets the bins, there is no such axis scale
+            plt.xscale("log" if mcres._histRanges.loc[key, "binScale"] == "log" else "linear")
+            plt.xlabel(mcres._histRanges.loc[key, "parameter"])
             # plt.xlim(30* FPFactor, 34* FPFactor)
             plt.ylabel("Vol. frac. \n (relative or absolute)")
 
             # get report, some string replacements to prevent errors of
             # "missing Glyph (9), which is the tab"
-            histReport = mcres.debugReport(n).split("\n", 1)[
+            histReport = mcres.debugReport(key).split("\n", 1)[
                 1
             ]  # .replace('      ', ' ').replace(' 	 ', ' ').replace('----------------','')
             plt.sca(ahs[0, 1 + n])  # top right
-- 
2.43.0

